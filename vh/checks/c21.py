"""C21: sparse subspace clustering by OMP."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.cluster as cl
import cr.sparse.cluster.ssc as ssc
import cr.sparse.cluster.spectral as sp
from vh.core import group
from vh.lopcat import rv, ri, key

J = jnp.asarray
nrm = np.linalg.norm


def reference(X, K):
    """column by column OMP over the other (normalised) columns; also the smallest relative selection margin"""
    N = X.shape[1]
    D = X / nrm(X, axis=0)
    I = np.zeros((K, N), int)
    Z = np.zeros((K, N))
    margin = np.inf
    for j in range(N):
        r = D[:, j]
        for k in range(K):
            h = np.abs(D.T @ r)
            h[j] = -1
            s = np.sort(h)
            margin = min(margin, (s[-1] - s[-2]) / max(nrm(r), 1e-300) if N > 2 else 1., nrm(r) / nrm(X[:, j] if k else 1.))
            I[k, j] = int(h.argmax())
            z = np.linalg.lstsq(D[:, I[:k + 1, j]], X[:, j], rcond=None)[0]
            r = X[:, j] - D[:, I[:k + 1, j]] @ z
        Z[:, j] = z
    return Z, I, margin


def subspaces(rng, M, dims, pers, noise=0., raw=True):
    X = np.concatenate([np.linalg.qr(rng.normal(size=(M, d)))[0] @ rng.normal(size=(d, n)) for d, n in zip(dims, pers)], axis=1)
    X = X / nrm(X, axis=0)
    X = X + noise * rng.normal(size=X.shape)
    if raw:
        X = X * np.exp(rng.normal(size=X.shape[1]))
    return X, np.repeat(np.arange(len(dims)), pers)


@group("C21", quick=16, thorough=128)
def representation(ctx, i):
    rng = ctx.rng
    M, dims, pers = [(10, (2, 3), (7, 8)), (6, (2, 2, 2), (5, 6, 4)), (20, (4, 3), (11, 9)), (5, (5,), (14,))][i % 4]
    K = ri(rng, 1, min(dims))
    N = sum(pers)
    bs = int(rng.choice([1, 2, 3, 4, N - 1, N, N + 3, 7]))
    for t in range(5):
        X, lab = subspaces(rng, M, dims, pers, noise=.1 * (t % 2), raw=t % 3 != 0)
        Zr, Ir, mg = reference(X, K)
        if mg < 1e-9:
            ctx.count("representation:tie")
            continue
        D = X / nrm(X, axis=0)
        p = dict(M=M, N=N, K=K, noise=t % 2, bs=bs)
        ctx.nontrivial(x=X[0, 0], **p)
        forms = [("jit", ssc.build_representation_omp_jit(J(X), K)), ("batch-jit", ssc.batch_build_representation_omp_jit(J(X), K, bs))]
        if t == 0:
            forms += [("eager", ssc.build_representation_omp(J(X), K)), ("batch", ssc.batch_build_representation_omp(J(X), K, bs))]
        for name, (Z, I, R) in forms:
            Z, I, R = map(np.asarray, (Z, I, R))
            if not ctx.ok(Z.shape == (K, N) and I.shape == (K, N) and R.shape == X.shape, "representation:shapes", form=name, **p):
                return
            ctx.ok(not np.any(I == np.arange(N)), "representation:never-itself", form=name, **p)
            ctx.ok(np.array_equal(I, Ir), "representation:indices", form=name, got=I, want=Ir, **p)
            ctx.close(Z, Zr, "representation:coefficients", tol=1e-7, scale=nrm(Zr), form=name, **p)
            Rr = X - np.stack([D[:, I[:, j]] @ Z[:, j] for j in range(N)], 1)
            ctx.close(R, Rr, "representation:residual", scale=nrm(X), form=name, **p)
            orth = max(np.max(np.abs(D[:, I[:, j]].T @ R[:, j])) / nrm(X[:, j]) for j in range(N))
            ctx.leq(orth, 1e-8, "representation:residual-orthogonal", form=name, **p)
        C = np.zeros((N, N))
        for j in range(N):
            C[I[:, j], j] = Z[:, j]
        ctx.close(ssc.sparse_to_full_rep(J(Z), J(I)), C, "forms:full", scale=nrm(C), **p)
        B = ssc.sparse_to_bcoo(J(Z), J(I))
        ctx.close(B.todense(), C, "forms:bcoo", scale=nrm(C), **p)
        for f in (ssc.bcoo_to_sparse, ssc.bcoo_to_sparse_jit):
            z2, i2 = f(B, K)
            ctx.close(z2, Z, "forms:values-back", scale=nrm(Z), **p)
            ctx.ok(np.array_equal(np.asarray(i2), I), "forms:indices-back", **p)
        A = np.abs(C) + np.abs(C).T
        ctx.close(ssc.rep_to_affinity(J(C)), A, "forms:affinity", scale=nrm(A), **p)
        ctx.close(ssc.rep_to_affinity(B).todense(), A, "forms:sparse-affinity", scale=nrm(A), **p)


@group("C21", quick=4, thorough=32)
def degenerate(ctx, i):
    """parallel and duplicate points, more steps than the points need: still no point represents itself, all forms agree"""
    rng = ctx.rng
    M, K = 6, ri(rng, 2, 4)
    base = np.stack([np.eye(M)[:, j % M] for j in range(3)], 1) if i % 2 else rng.normal(size=(M, 3))
    X = np.concatenate([base * s for s in (1., 1., 2., -4., .5)], axis=1)
    X = X[:, rng.permutation(15)]
    N = 15
    p = dict(K=K, axis_aligned=bool(i % 2))
    ctx.nontrivial(x=X[:, 0], **p)
    D = X / nrm(X, axis=0)
    for name, (Z, I, R) in (("plain", ssc.build_representation_omp(J(X), K)), ("batch", ssc.batch_build_representation_omp(J(X), K, 4))):
        Z, I, R = map(np.asarray, (Z, I, R))
        ctx.ok(not np.any(I == np.arange(N)), "degenerate:never-itself", form=name, got=I, **p)
        ctx.leq(nrm(R), 1e-8 * nrm(X), "degenerate:represented", form=name, **p)
        F = np.asarray(ssc.sparse_to_full_rep(J(Z), J(I)))
        ctx.close(D @ F, X, "degenerate:full-representation", tol=1e-8, scale=nrm(X), form=name, **p)
        ctx.close(F, ssc.sparse_to_bcoo(J(Z), J(I)).todense(), "degenerate:forms-agree", scale=nrm(F), form=name, **p)
    ang = np.asarray(ssc.angles_between_points(J(X)))
    ctx.finite(ang, "degenerate:angles-finite", **p)
    c = np.clip(D.T @ D, -1, 1)
    ctx.ok(np.max(np.abs(ang - np.degrees(np.arccos(c)))) < 1e-4, "degenerate:angles", **p)
    s = np.asarray(ssc.sorted_neighbors(J(ang)))
    ctx.ok(all(sorted(s[j].tolist()) == [q for q in range(N) if q != j] for j in range(N)), "degenerate:neighbours-are-others", got=s, **p)


@group("C21", quick=10, thorough=80)
def geometry(ctx, i):
    rng = ctx.rng
    for t in range(4):
        k = ri(rng, 1 if t == 0 else 2, 4)
        pers = [ri(rng, 2, 7) for _ in range(k)]
        M = ri(rng, 2, 8)
        X = rng.normal(size=(M, sum(pers))) * np.exp(rng.normal(size=sum(pers)))
        if t == 3:
            X[:, 1] = -3 * X[:, 0]
        N = X.shape[1]
        D = X / nrm(X, axis=0)
        want = np.degrees(np.arccos(np.clip(D.T @ D, -1, 1)))
        ang = np.asarray(ssc.angles_between_points(J(X)))
        p = dict(M=M, sizes=str(pers))
        ctx.nontrivial(x=X[0, 0], **p)
        ctx.ok(np.all(np.isfinite(ang)) and np.max(np.abs(ang - want)) < 1e-4, "geometry:angles", got=ang, want=want, **p)
        lab = np.repeat(np.arange(k), pers)
        same = lab[:, None] == lab[None]
        inside = np.where(same & ~np.eye(N, dtype=bool), want, np.inf)
        outside = np.where(same, np.inf, want)
        sz = J(np.array(pers))
        W = J(want)
        ctx.ok(np.allclose(ssc.min_angles_inside_cluster(W, sz), inside.min(1)), "geometry:min-inside", **p)
        ctx.ok(np.array_equal(np.asarray(ssc.nearest_neighbors_inside_cluster(W, sz)), inside.argmin(1)), "geometry:nearest-inside", **p)
        if k > 1:
            ctx.ok(np.allclose(ssc.min_angles_outside_cluster(W, sz), outside.min(1)), "geometry:min-outside", **p)
            ctx.ok(np.array_equal(np.asarray(ssc.nearest_neighbors_outside_cluster(W, sz)), outside.argmin(1)), "geometry:nearest-outside", **p)
        s = np.asarray(ssc.sorted_neighbors(W))
        ctx.ok(s.shape == (N, N - 1) and all(sorted(s[j].tolist()) == [q for q in range(N) if q != j] for j in range(N)),
               "geometry:neighbours-complete", **p)
        ctx.ok(all(np.all(np.diff(want[j, s[j]]) >= 0) for j in range(N)), "geometry:neighbours-sorted", **p)
        pos = np.asarray(ssc.inn_positions(J(lab), J(lab[s])))
        wp = [int(np.flatnonzero(lab[s[j]] == lab[j])[0]) for j in range(N)]
        ctx.ok(pos.tolist() == wp, "geometry:inside-neighbour-position", got=pos, want=wp, **p)


@group("C21", quick=10, thorough=80)
def preservation(ctx, i):
    rng = ctx.rng
    for t in range(5):
        k, N, d = ri(rng, 1, 4), ri(rng, 6, 20), ri(rng, 1, 4)
        lab = rng.integers(k, size=N)
        I = np.stack([rng.permutation(np.delete(np.arange(N), j))[:d] for j in range(N)], 1)
        Z = rng.normal(size=(d, N))
        Z = Z + np.sign(Z) * .05
        if t % 2:                                    # mostly preserving
            for j in range(N):
                Z[:, j] *= np.where((lab[I[:, j]] == lab[j]) | (rng.random() < .3), 1., 0.)
                if not Z[:, j].any():
                    Z[0, j] = .3
        C = np.zeros((N, N))
        for j in range(N):
            C[I[:, j], j] = Z[:, j]
        a = np.abs(C)
        same = lab[:, None] == lab[None]
        err = 1 - np.where(same, a, 0).sum(0) / a.sum(0)
        flag = ~np.any((a > 0) & ~same, axis=0)
        p = dict(N=N, k=k, d=d)
        ctx.nontrivial(z=Z[0, 0], **p)
        for name, s in (("dense", ssc.subspace_preservation_stats(J(C), J(lab))), ("dense-jit", ssc.subspace_preservation_stats_jit(J(C), J(lab))),
                        ("sparse", ssc.sparse_subspace_preservation_stats(J(Z), J(I), J(lab))),
                        ("sparse-jit", ssc.sparse_subspace_preservation_stats_jit(J(Z), J(I), J(lab)))):
            ctx.close(s.spr_errors, err, "preservation:errors", tol=1e-9, scale=1., form=name, **p)
            ctx.ok(np.array_equal(np.asarray(s.spr_flags), flag), "preservation:flags", form=name, **p)
            ctx.close(s.spr_error, err.mean(), "preservation:mean-error", tol=1e-9, scale=1., form=name, **p)
            ctx.ok(bool(s.spr_flag) == bool(flag.all()), "preservation:overall-flag", form=name, **p)
            ctx.close(s.spr_perc, 100 * flag.mean(), "preservation:percentage", tol=1e-6, scale=100., form=name, **p)


@group("C21", quick=6, thorough=48)
def pipeline(ctx, i):
    """points of well separated subspaces: preserving representations, zero clustering error"""
    rng = ctx.rng
    M = 30
    dims = (4, 4, 3)[:2 + i % 2]
    pers = tuple(ri(rng, 24, 30) for _ in dims)
    Q = np.linalg.qr(rng.normal(size=(M, sum(dims))))[0]
    X, s = [], 0
    for dd, n in zip(dims, pers):
        X.append(Q[:, s:s + dd] @ rng.normal(size=(dd, n)))
        s += dd
    X = np.concatenate(X, 1) * np.exp(rng.normal(size=sum(pers)))
    lab = np.repeat(np.arange(len(dims)), pers)
    q = rng.permutation(len(lab))
    X, lab = X[:, q], lab[q]
    K = 3
    p = dict(dims=str(dims), pers=str(pers), K=K)
    ctx.nontrivial(x=X[0, 0], **p)
    Z, I, R = ssc.build_representation_omp_jit(J(X), K)
    st = ssc.sparse_subspace_preservation_stats(Z, I, J(lab))
    ctx.ok(bool(st.spr_flag), "pipeline:preserving", **p)
    ctx.leq(float(st.spr_error), 1e-8, "pipeline:preservation-error", **p)
    A = np.asarray(ssc.rep_to_affinity(ssc.sparse_to_full_rep(Z, I)))
    ctx.close(A, A.T, "pipeline:affinity-symmetric", scale=nrm(A), **p)
    # OMP graphs may split a subspace: decide only where the affinity graph has as many components as subspaces
    from scipy.sparse.csgraph import connected_components
    n, cc = connected_components(A > 1e-12)
    ctx.ok(all(len(set(lab[cc == c])) == 1 for c in range(n)), "pipeline:components-pure", **p)
    if n != len(dims):
        ctx.count("pipeline:split-subspace")
        return
    for attempt in range(3):
        a = sp.unnormalized_k(key(rng), J(A), len(dims)).assignment
        e = cl.clustering_error_k(J(lab), a, len(dims))
        if int(e.num_missed) == 0:
            break
    ctx.ok(int(e.num_missed) == 0, "pipeline:clusters-found", missed=int(e.num_missed), **p)
