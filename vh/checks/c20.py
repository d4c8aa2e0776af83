"""C20: spectral clustering, clustering error and label bookkeeping."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax.experimental.sparse import BCOO
import cr.sparse.cluster as cl
import cr.sparse.cluster.spectral as sp
from vh.core import group
from vh.lopcat import rv, ri, key

J = jnp.asarray
nrm = np.linalg.norm


def least_missed(t, p):
    """fewest mismatches over all one-to-one matchings of predicted to true labels, by enumeration"""
    ut, up = np.unique(t), np.unique(p)
    G = np.array([[np.sum((t == a) & (p == b)) for b in up] for a in ut])
    if G.shape[0] > G.shape[1]:
        G = G.T
    r, c = G.shape
    return len(t) - max(sum(G[i, q[i]] for i in range(r)) for q in itertools.permutations(range(c), r))


def same_partition(a, b):
    a, b = np.asarray(a), np.asarray(b)
    pairs = {(int(x), int(y)) for x, y in zip(a, b)}
    return len(pairs) == len(set(a.tolist())) == len(set(b.tolist()))


@group("C20", quick=10, thorough=80)
def error(ctx, i):
    rng = ctx.rng
    for t in range(6):
        kt, kp = ri(rng, 1, 5), ri(rng, 1, 5)
        if t % 2:
            kp = kt
        n = ri(rng, max(kt, kp), 24)
        names = rng.permutation(12)[:kt] if t % 3 == 0 else np.arange(kt)
        pn = rng.permutation(12)[:kp] if t % 3 == 0 else np.arange(kp)
        base = np.concatenate([np.arange(kt), rng.integers(kt, size=n - kt)])
        rng.shuffle(base)
        true = names[base]
        noise = rng.random(n) < float(rng.choice([0., .2, 1.]))
        mp = rng.permutation(kp)
        pred = np.where(noise, rng.integers(kp, size=n), mp[base % kp])
        pred = pn[pred]
        want = least_missed(true, pred)
        p = dict(n=n, kt=kt, kp=kp, true=true, pred=pred)
        ctx.nontrivial(n=n, kt=kt, kp=kp, t=str(true), q=str(pred))
        e = cl.clustering_error(J(true), J(pred))
        ml = np.asarray(e.mapped_labels)
        ctx.ok(int(e.num_missed) == want, "error:fewest-missed", got=int(e.num_missed), want=want, **p)
        ctx.ok(int(e.num_missed) == int(np.sum(ml != true)), "error:missed-describes-mapping", **p)
        ctx.close(e.error, want / n, "error:fraction", tol=1e-6, scale=1., **p)
        ctx.close(e.error_perc, 100 * want / n, "error:percentage", tol=1e-6, scale=100., **p)
        ctx.ok(np.array_equal(np.asarray(e.true_labels), true) and np.array_equal(np.asarray(e.pred_labels), pred), "error:inputs", **p)
        if kt >= len(np.unique(pred)):
            ctx.ok(same_partition(ml, pred), "error:one-to-one", got=ml, **p)
            ctx.ok(set(ml.tolist()) <= set(true.tolist()), "error:true-labels-used", got=ml, **p)
        bm, cols, G = cl.best_map(J(true), J(pred))
        ctx.ok(np.array_equal(np.asarray(bm), ml), "error:best-map", **p)
        # for a known label range
        k = max(kt, kp) + int(rng.integers(2))
        true, pred = base, mp[base % kp]
        pred = np.where(noise, rng.integers(k, size=n), pred)
        want = least_missed(true, pred)
        p = dict(n=n, k=k, true=true, pred=pred)
        e = cl.clustering_error_k(J(true), J(pred), k)
        ml = np.asarray(e.mapped_labels)
        ctx.ok(int(e.num_missed) == want, "error-k:fewest-missed", got=int(e.num_missed), want=want, **p)
        ctx.ok(int(e.num_missed) == int(np.sum(ml != true)), "error-k:missed-describes-mapping", **p)
        ctx.close(e.error, want / n, "error-k:fraction", tol=1e-6, scale=1., **p)
        ctx.close(e.error_perc, 100 * want / n, "error-k:percentage", tol=1e-6, scale=100., **p)
        ctx.ok(same_partition(ml, pred), "error-k:one-to-one", got=ml, **p)
        bm, cols, G = cl.best_map_k(J(true), J(pred), k)
        want_G = np.zeros((k, k), int)
        np.add.at(want_G, (true, pred), 1)
        ctx.ok(np.array_equal(np.asarray(G), want_G), "error-k:confusion", got=G, want=want_G, **p)
        # relabelling either side changes nothing
        q = rng.permutation(k)
        e2 = cl.clustering_error_k(J(true), J(q[pred]), k)
        ctx.ok(int(e2.num_missed) == want, "error-k:label-names-irrelevant", **p)
        ctx.ok(int(cl.clustering_error_k(J(pred), J(true), k).num_missed) == want, "error-k:symmetric", **p)
    bad = False
    try:
        cl.best_map(J(true), J(np.append(pred, 0)))
        bad = True
    except ValueError:
        pass
    ctx.ok(not bad, "error:lengths-differ-rejected")


@group("C20", quick=6, thorough=48)
def labels(ctx, i):
    rng = ctx.rng
    for t in range(4):
        k = ri(rng, 1, 7)
        sizes = rng.integers(1 if t % 2 else 0, 9, size=k)
        if sizes.sum() == 0:
            continue
        lab = np.repeat(np.arange(k), sizes)
        p = dict(sizes=sizes)
        ctx.nontrivial(sizes=str(sizes))
        ctx.ok(np.array_equal(np.asarray(cl.labels_from_sizes(J(sizes))), lab), "labels:from-sizes", **p)
        pm = rng.permutation(lab)
        for f in (cl.sizes_from_labels, cl.sizes_from_labels_jit):
            ctx.ok(np.array_equal(np.asarray(f(J(pm), k)), sizes), "labels:sizes", got=f(J(pm), k), **p)
        s, e = cl.start_end_indices(J(sizes))
        c = np.cumsum(sizes)
        ctx.ok(np.array_equal(np.asarray(s), c - sizes) and np.array_equal(np.asarray(e), c), "labels:start-end", got=(s, e), **p)


def component(rng, n, kind):
    if kind == "path":
        W = np.diag(rng.uniform(.5, 1.5, n - 1), 1)
    elif kind == "tree":
        W = np.zeros((n, n))
        for v in range(1, n):
            W[rng.integers(v), v] = rng.uniform(.5, 1.5)
    else:
        W = np.triu(rng.uniform(.4, 1., (n, n)) * (rng.random((n, n)) < (1. if kind == "dense" else .6)), 1)
        W += np.diag(rng.uniform(.5, 1., n - 1), 1)
    return W + W.T


def graph(rng, sizes, kind, eps, hetero):
    n = sum(sizes)
    W = eps * rng.random((n, n))
    W = np.triu(W, 1)
    W = W + W.T
    s = 0
    for z in sizes:
        W[s:s + z, s:s + z] = component(rng, z, kind) * (10. ** rng.uniform(-1.5, 1.5) if hetero else 1.)
        s += z
    lab = np.repeat(np.arange(len(sizes)), sizes)
    q = rng.permutation(n)
    return W[q][:, q] * float(rng.choice([1e-2, 1., 30.])), lab[q]


METHODS = ["unnormalized_k", "normalized_random_walk_k", "normalized_symmetric_fast_k", "normalized_symmetric_sparse_fast_k",
           "unnormalized", "normalized_random_walk", "unnormalized_k_jit", "normalized_random_walk_k_jit",
           "normalized_symmetric_fast_k_jit", "normalized_symmetric_sparse_fast_k_jit"]


@group("C20", quick=20, thorough=160)
def spectral(ctx, i):
    """graphs with disconnected or weakly joined components: the groups, the Laplacian and its spectrum"""
    rng = ctx.rng
    m = METHODS[i % 10]
    f = getattr(sp, m)
    fast = "fast" in m
    given = "_k" in m
    k = [2, 3, 3, 4][(i // 10) % 4] if i >= 10 else ri(rng, 2, 3)
    reps = 1 if not m.endswith("jit") else 2
    sizes = [6] * k if k == 4 else [ri(rng, 6, 9) for _ in range(k)]
    for t in range(reps):
        kind = "dense" if not given else str(rng.choice(["dense", "random"] if fast else ["dense", "random", "path", "tree"]))
        eps = float(rng.choice([0., 1e-4, 1e-2])) if kind == "dense" else 0.
        W, lab = graph(rng, sizes, kind, eps, given and eps == 0)
        n = len(lab)
        uneven = given and not fast and eps == 0 and kind in ("dense", "random") and rng.random() < .7
        if uneven:       # members of one group of very different strength
            dg = 10. ** rng.uniform(-2, 0, n)
            W = W * dg[:, None] * dg[None, :]
        Win = BCOO.fromdense(J(W)) if "sparse" in m else J(W)
        p = dict(method=m, sizes=str(sizes), kind=kind, eps=eps, uneven=bool(uneven))
        ctx.nontrivial(w=W[0, 1], **p)
        for attempt in range(3):     # k-means restarts are random: only a repeated failure is a verdict
            s = f(key(rng), Win, k) if given else f(key(rng), Win)
            good = same_partition(lab, s.assignment)
            if good or not given:
                break
        if not ctx.ok(int(s.num_clusters) == k, "spectral:number-of-clusters", got=int(s.num_clusters), want=k, **p):
            return
        ctx.ok(good, "spectral:groups-found", got=s.assignment, want=lab, **p)
        d = W.sum(0)
        S = np.asarray(s.singular_values)
        if fast:
            L = W / np.sqrt(np.outer(d, d))
            got = s.laplancian.todense() if "sparse" in m else s.laplancian
            sv = np.linalg.svd(L, compute_uv=False)
            ctx.close(got, L, "spectral:normalised-weights", tol=1e-9, scale=nrm(L), **p)
            ctx.ok(np.all(np.abs(S[:k] - sv[:k]) < 1e-3), "spectral:leading-values", got=S[:k], want=sv[:k], **p)
        else:
            L = np.diag(d) - W if m.startswith("unn") else np.eye(n) - W / d[:, None]
            ctx.close(s.laplancian, L, "spectral:laplacian", tol=1e-9, scale=nrm(L), **p)
            sv = np.linalg.svd(L, compute_uv=False)
            ctx.close(S, sv, "spectral:singular-values", tol=1e-8, scale=sv[0], **p)
            ctx.close(s.connectivity, sv[-2], "spectral:connectivity", tol=1e-8, scale=sv[0], **p)
    for g in (sp.normalized_random_walk_laplacian, sp.normalized_random_walk_laplacian_jit):
        ctx.close(g(J(W)), np.eye(n) - W / d[:, None], "laplacian:random-walk", tol=1e-9, scale=np.sqrt(n))
    ctx.close(sp.normalized_symmetric_w(J(W)), W / np.sqrt(np.outer(d, d)), "laplacian:symmetric", tol=1e-9, scale=1.)
    ctx.close(sp.normalized_symmetric_sparse_w(BCOO.fromdense(J(W))).todense(), W / np.sqrt(np.outer(d, d)), "laplacian:sparse",
              tol=1e-9, scale=1.)
