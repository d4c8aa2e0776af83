"""C19: k-means."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.cluster.vq as vq
from vh.core import group
from vh.lopcat import rv, ri, key

J = jnp.asarray
nrm = np.linalg.norm


def dists(P, C):
    return nrm(P[:, None, :] - C[None], axis=2)


def cloud(rng, n, d, kind):
    if kind == "blobs":
        c = 4. * rng.normal(size=(ri(rng, 2, 4), d))
        P = c[rng.integers(len(c), size=n)] + rng.normal(size=(n, d))
    elif kind == "uniform":
        P = rng.random((n, d))
    elif kind == "heavy":
        P = rng.standard_t(2, size=(n, d))
    elif kind == "ring" and d > 1:
        P = rng.normal(size=(n, d))
        P /= nrm(P, axis=1, keepdims=True)
    else:                                        # far from the origin
        P = 50. + rng.normal(size=(n, d)) * np.linspace(1, 5, d)
    return P


KINDS = ["blobs", "uniform", "heavy", "ring", "far"]


def margin(D):
    s = np.sort(D, axis=1)
    return np.min(s[:, 1] - s[:, 0]) / max(1e-300, s.max()) if D.shape[1] > 1 else 1.


@group("C19", quick=16, thorough=128)
def lloyd(ctx, i):
    """the state after 0, 1, 2, ... iterations against Lloyd's algorithm, and the stopping time"""
    rng = ctx.rng
    n, d, k = [(30, 2, 3), (40, 3, 5), (25, 1, 4), (60, 2, 8), (20, 6, 2), (12, 2, 1), (50, 4, 6), (9, 2, 9)][i % 8]
    th = float(rng.choice([1e-5, 1e-3, 1e-2]))
    for t in range(8 if ctx.tier == "quick" else 12):
        kind = KINDS[(i + t) % 5]
        P = cloud(rng, n, d, kind)
        kk = key(rng)
        sc = nrm(P) / np.sqrt(n)
        p = dict(n=n, d=d, k=k, kind=kind, thresh=th)
        run = (lambda T: vq.kmeans_with_seed_jit(kk, J(P), k, th, T)) if t or i % 2 else \
              (lambda T: vq.kmeans_with_seed(kk, J(P), k, thresh=th, max_iters=T))
        st = run(0)
        C = np.asarray(st.centroids)
        idx = [int(np.argmin(nrm(P - c, axis=1))) for c in C]
        ctx.ok(C.shape == (k, d) and len(set(idx)) == k and np.allclose(P[idx], C, rtol=1e-12, atol=1e-12 * sc),
               "init:distinct-data-points", got=idx, **p)
        ctx.ok(int(st.iterations) == 0, "init:count", **p)
        ctx.nontrivial(x=P[0, 0], **p)
        prev = np.inf
        D = dists(P, C)
        a = D.argmin(1)
        dist = D.min(1).mean()
        sse = (D.min(1) ** 2).sum()
        T = 0
        usable = margin(D) > 1e-9
        while usable and T < 12:
            q = dict(T=T, **p)
            ctx.ok(np.array_equal(np.asarray(st.assignment), a), "lloyd:assignment", got=st.assignment, want=a, **q)
            ctx.close(st.centroids, C, "lloyd:centroids", tol=1e-9, scale=nrm(P), **q)
            ctx.close(st.distortion, dist, "lloyd:distortion", tol=1e-9, scale=sc, **q)
            if T:
                ctx.close(st.prev_distortion, prev, "lloyd:previous-distortion", tol=1e-9, scale=sc, **q)
            gap = prev - dist
            if abs(gap - th) < 1e-9 * sc:
                break
            nxt = run(T + 1)
            if gap <= th:
                ctx.ok(int(nxt.iterations) == T, "stop:on-convergence", gap=gap, got=int(nxt.iterations), **q)
                ctx.close(nxt.centroids, C, "stop:state-kept", tol=1e-9, scale=nrm(P), **q)
                full = run(100)
                ctx.ok(int(full.iterations) == T, "stop:time", got=int(full.iterations), gap=gap, **q)
                ctx.ok(np.array_equal(np.asarray(full.assignment), a), "stop:final-assignment", **q)
                break
            ctx.ok(int(nxt.iterations) == T + 1, "stop:not-before-convergence", gap=gap, got=int(nxt.iterations), **q)
            if len(np.unique(a)) < k:
                ctx.count("lloyd:empty-cluster")
                ctx.finite(nxt.centroids, "lloyd:finite-with-empty-cluster", **q)
                break
            C = np.stack([P[a == j].mean(0) for j in range(k)])
            D = dists(P, C)
            prev, a, dist, T, st = dist, D.argmin(1), D.min(1).mean(), T + 1, nxt
            s2 = (dists(P, np.asarray(st.centroids)).min(1) ** 2).sum()
            ctx.leq(s2, sse, "lloyd:squared-error-falls", slack=1e-9 * nrm(P) ** 2, **q)
            sse = s2
            usable = margin(D) > 1e-9


@group("C19", quick=10, thorough=80)
def restarts(ctx, i):
    """several restarts: the run with least distortion is reported, its key reproduces it; separated groups are found"""
    rng = ctx.rng
    k = [2, 3, 4, 1, 3][i % 5]
    d = ri(rng, 1, 4)
    per = [ri(rng, 4, 9) for _ in range(k)]
    sep = 60.
    cen = []
    while len(cen) < k:
        c = rng.normal(size=d) * sep * (8 if d == 1 else 3)
        if all(nrm(c - o) > 1.2 * sep for o in cen):
            cen.append(c)
    lab = np.repeat(np.arange(k), per)
    P = np.array(cen)[lab] + np.clip(rng.normal(size=(len(lab), d)), -2, 2)
    pm = rng.permutation(len(lab))
    P, lab = P[pm], lab[pm]
    it = 40
    kk = key(rng)
    jitted = bool(rng.integers(2))
    s = (vq.kmeans_jit if jitted else vq.kmeans)(kk, J(P), k, it)
    a = np.asarray(s.assignment)
    p = dict(k=k, d=d, jitted=jitted, sizes=str(per))
    ctx.nontrivial(x=P[0, 0], **p)
    pairs = {(int(u), int(v)) for u, v in zip(lab, a)}
    ctx.ok(len(pairs) == k and len({v for _, v in pairs}) == k, "restarts:groups-found", got=a, want=lab, **p)
    C = np.asarray(s.centroids)
    D = dists(P, C)
    ctx.ok(np.array_equal(a, D.argmin(1)), "restarts:assignment-nearest", **p)
    ctx.close(s.distortion, D.min(1).mean(), "restarts:distortion", tol=1e-9, scale=nrm(P), **p)
    ctx.leq(int(s.iterations), 100, "restarts:budget", **p)
    one = vq.kmeans_with_seed(s.key, J(P), k)
    ctx.close(one.centroids, C, "restarts:key-reproduces", tol=1e-9, scale=nrm(P), **p)
    ctx.ok(int(one.iterations) == int(s.iterations), "restarts:iterations", **p)
    # crowded data: many local minima; the reported run is the best of the restarts of this key
    n, it2 = 40, ri(rng, 2, 7)
    P2 = rng.normal(size=(n, 2))
    k2 = ri(rng, 4, 8)
    s2 = vq.kmeans(kk, J(P2), k2, iter=it2)
    keys = np.asarray(jax.random.split(kk, it2))
    if any(np.array_equal(np.asarray(s2.key), q) for q in keys):
        runs = [vq.kmeans_with_seed_jit(J(q), J(P2), k2, 1e-5, 100) for q in keys]
        best = min(float(r.distortion) for r in runs)
        ctx.close(s2.distortion, best, "restarts:least-distortion", tol=1e-9, scale=1., k2=k2, it=it2, **p)
        j = int(np.argmin([float(r.distortion) for r in runs]))
        ctx.close(s2.centroids, runs[j].centroids, "restarts:best-centroids", tol=1e-9, scale=nrm(P2), **p)
    # rigid motions and scalings carry the run along
    Q, _ = np.linalg.qr(rng.normal(size=(2, 2)))
    al = float(rng.choice([1e-3, 1., 7.])) * float(rng.choice([-1, 1]))
    tr = rng.normal(size=2) * 10 * abs(al)
    s3 = vq.kmeans(kk, J(al * P2 @ Q + tr), k2, iter=it2, thresh=1e-5 * abs(al))
    if np.array_equal(np.asarray(s3.key), np.asarray(s2.key)):
        ctx.close(s3.centroids, al * np.asarray(s2.centroids) @ Q + tr, "restarts:rigid-motion", tol=1e-6,
                  scale=abs(al) * nrm(P2) + nrm(tr), **p)
        ctx.ok(np.array_equal(np.asarray(s3.assignment), np.asarray(s2.assignment)), "restarts:rigid-motion-assignment", **p)
    for mi in (0, 1, 2):
        b = vq.kmeans_jit(kk, J(P2), k2, it2, 1e-5, mi)
        ctx.leq(int(b.iterations), mi, "restarts:max-iters", **p)


@group("C19", quick=8, thorough=64)
def steps(ctx, i):
    """the public building blocks"""
    rng = ctx.rng
    for t in range(6):
        n, d, k = ri(rng, 2, 40), ri(rng, 1, 6), ri(rng, 1, 9)
        P = cloud(rng, n, d, KINDS[(i + t) % 5])
        C = cloud(rng, k, d, KINDS[(i + t + int(rng.integers(2))) % 5])
        D = dists(P, C)
        if margin(D) < 1e-9:
            continue
        p = dict(n=n, d=d, k=k)
        ctx.nontrivial(x=P[0, 0], **p)
        for f in (vq.find_assignment, vq.find_assignment_jit):
            a, dd = f(J(P), J(C))
            ctx.ok(np.array_equal(np.asarray(a), D.argmin(1)), "steps:assignment", **p)
            ctx.close(dd, D.min(1), "steps:distances", tol=1e-9, scale=nrm(D), **p)
        j = ri(rng, 0, n - 1)
        for f in (vq.find_nearest, vq.find_nearest_jit):
            ctx.ok(int(f(J(P[j]), J(C))) == D[j].argmin(), "steps:nearest", **p)
        a = rng.integers(k, size=n)
        cnt = np.bincount(a, minlength=k)
        ctx.ok(np.array_equal(np.asarray(vq.assignment_counts(J(a), k)).ravel(), np.maximum(cnt, 1)), "steps:counts", **p)
        for f in (vq.find_new_centroids, vq.find_new_centroids_jit):
            N = np.asarray(f(J(a), J(P), k))
            ctx.ok(N.shape == (k, d), "steps:centroid-shape", **p)
            for c in range(k):
                if cnt[c]:
                    ctx.close(N[c], P[a == c].mean(0), "steps:centroid-is-mean", tol=1e-9, scale=nrm(P), c=c, **p)
            ctx.finite(N, "steps:centroids-finite", **p)


@group("C19", quick=6, thorough=48)
def choice(ctx, i):
    """crowded clouds: the reported run has the least distortion among the restarts (through one compiled solver)"""
    rng = ctx.rng
    n, k, it, mi = [(30, 4, 12, 100), (24, 5, 15, 100), (40, 6, 8, 3), (16, 3, 20, 1), (30, 2, 10, 2), (20, 4, 10, 0)][i % 6]
    d = ri(rng, 1, 3)
    th = float(rng.choice([1e-5, 1e-5, 1e-2]))
    f = jax.jit(lambda kk, P: vq.kmeans(kk, P, k, it, th, mi))
    g = jax.jit(jax.vmap(lambda q, P: vq.kmeans_with_seed(q, P, k, th, mi), in_axes=(0, None)))
    for t in range(15):
        P = cloud(rng, n, d, KINDS[ri(rng, 0, 4)]) if t % 3 == 0 else rng.normal(size=(n, d))
        kk = key(rng)
        s = f(kk, J(P))
        p = dict(n=n, k=k, it=it, d=d, th=th, mi=mi, t=t)
        D = dists(P, np.asarray(s.centroids))
        ctx.close(s.distortion, D.min(1).mean(), "choice:distortion", tol=1e-9, scale=nrm(P), **p)
        if margin(D) > 1e-9:
            ctx.ok(np.array_equal(np.asarray(s.assignment), D.argmin(1)), "choice:assignment", **p)
        ctx.leq(int(s.iterations), mi, "choice:max-iters", **p)
        keys = np.asarray(jax.random.split(kk, it))
        if not any(np.array_equal(np.asarray(s.key), q) for q in keys):
            continue
        r = g(J(keys), J(P))
        dist = np.asarray(r.distortion)
        ctx.close(s.distortion, dist.min(), "choice:least-distortion", tol=1e-9, scale=nrm(P), **p)
        j = [np.array_equal(np.asarray(s.key), q) for q in keys].index(True)
        ctx.close(dist[j], s.distortion, "choice:key-reproduces", tol=1e-9, scale=nrm(P), **p)
        ctx.close(np.asarray(r.centroids)[j], s.centroids, "choice:centroids-of-key", tol=1e-9, scale=nrm(P), **p)
        ctx.ok(int(r.iterations[j]) == int(s.iterations), "choice:iterations-of-key", **p)
        ctx.nontrivial(x=P[0, 0], **p)
