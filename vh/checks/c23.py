"""C23: synthetic data and random sensing matrices."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.data as crdata
import cr.sparse.dict as crdict
from vh.core import group
from vh.lopcat import ri, key

J = jnp.asarray
nrm = np.linalg.norm


def support_ok(ctx, X, om, D, K, S, p):
    X = np.asarray(X)
    om = np.asarray(om)
    ctx.ok(X.shape == ((D,) if S == 1 else (D, S)), "sparse:shape", got=str(X.shape), **p)
    X2 = X.reshape(D, S)
    ctx.ok(om.shape == (K,) and np.array_equal(om, np.unique(om)) and (K == 0 or (om[0] >= 0 and om[-1] < D)), "sparse:support", got=om, **p)
    off = np.ones(D, bool)
    off[om] = False
    ctx.ok(not X2[off].any(), "sparse:zero-off-support", **p)
    ctx.ok(np.all(X2[om] != 0), "sparse:nonzero-on-support", **p)
    return X2[om]


@group("C23", quick=12, thorough=96)
def sparse_vectors(ctx, i):
    rng = ctx.rng
    for t in range(3):
        D = ri(rng, 2, 40)
        K = ri(rng, 1, D) if t else D
        S = [1, 2, 7][(i + t) % 3]
        kk = key(rng)
        p = dict(D=D, K=K, S=S)
        ctx.nontrivial(k=str(np.asarray(kk)), **p)
        support_ok(ctx, *crdata.sparse_normal_representations(kk, D, K, S), D, K, S, dict(kind="normal", **p))
        a = float(rng.choice([.5, 1., 4.]))
        b = a + float(rng.choice([0., 1.]))
        v = support_ok(ctx, *crdata.sparse_biuniform_representations(kk, a, b, D, K, S), D, K, S, dict(kind="biuniform", **p))
        ctx.ok(np.all(np.abs(v) >= a - 1e-9) and np.all(np.abs(v) <= b + 1e-9), "biuniform:magnitudes", got=v, a=a, b=b, **p)
        v = support_ok(ctx, *crdata.sparse_spikes(kk, D, K, S), D, K, S, dict(kind="spikes", **p))
        ctx.ok(np.all(np.abs(v) == 1), "spikes:unit", got=v, **p)
        # deterministic in the key, different for other keys
        f = [lambda k: crdata.sparse_normal_representations(k, D, K, S)[0], lambda k: crdata.sparse_biuniform_representations(k, 1., 2., D, K, S)[0]][t % 2]
        ctx.ok(np.array_equal(np.asarray(f(kk)), np.asarray(f(kk))), "sparse:deterministic", **p)
        ctx.ok(not np.array_equal(np.asarray(f(kk)), np.asarray(f(key(rng)))), "sparse:key-matters", **p)
        # blocks
        B, C = ri(rng, 1, 6), ri(rng, 2, 8)
        Kb = ri(rng, 1, C)
        Db = B * C
        cor = float(rng.choice([0., .5, .9]))
        nb = bool(rng.integers(2))
        x, blocks, idx = crdata.sparse_normal_blocks(kk, Db, Kb, B, S, cor=cor, normalize_blocks=nb)
        x, blocks, idx = map(np.asarray, (x, blocks, idx))
        q = dict(D=Db, K=Kb, B=B, S=S, cor=cor, nb=nb)
        ctx.ok(x.shape == ((Db,) if S == 1 else (Db, S)), "blocks:shape", got=str(x.shape), **q)
        ctx.ok(blocks.shape == (Kb,) and np.array_equal(blocks, np.unique(blocks)) and blocks[0] >= 0 and blocks[-1] < C, "blocks:numbers", got=blocks, **q)
        ctx.ok(np.array_equal(np.sort(idx), (blocks[:, None] * B + np.arange(B)).ravel()), "blocks:indices", got=idx, **q)
        X = x.reshape(Db, S)
        act = np.any(X != 0, axis=1).reshape(C, B)
        ctx.ok(np.array_equal(np.flatnonzero(act.any(1)), blocks) and act[blocks].all(), "blocks:activity", **q)
        if nb:
            ctx.close(nrm(X.reshape(C, B, S)[blocks], axis=1), np.ones((Kb, S)), "blocks:unit-norm", tol=1e-6, **q)
        bad = True
        if B > 1:
            try:
                crdata.sparse_normal_blocks(kk, Db + 1, Kb, B)
            except ValueError:
                bad = False
            ctx.ok(not bad, "blocks:partial-block-rejected", **q)
        # index sets
        Ss = ri(rng, 1, 6)
        I = np.asarray(crdata.index_sets(kk, D, K, Ss))
        ctx.ok(I.shape == (Ss, K) and all(len(set(r.tolist())) == K and min(r) >= 0 and max(r) < D for r in I), "index-sets", got=I, **p)
        I2 = np.asarray(crdata.index_sets(kk, D, K, Ss, out_axis=1))
        ctx.ok(np.array_equal(I2, I.T), "index-sets:axis", **p)
        # orthogonal points
        x = rng.normal(size=D) * float(rng.choice([1e-2, 1., 50.]))
        P = np.asarray(crdata.points_orthogonal_to(kk, J(x), Ss))
        ctx.ok(P.shape == (Ss, D) and np.max(np.abs(P @ x)) <= 1e-8 * nrm(x) * max(1., nrm(P)), "orthogonal-points", **p)
        ctx.ok(D == 1 or np.linalg.matrix_rank(P) == min(Ss, D - 1), "orthogonal-points:generic", **p)


@group("C23", quick=4, thorough=32)
def distributions(ctx, i):
    """statistical monitors over many keys (bounds at six standard errors or more)"""
    rng = ctx.rng
    D, K, S = 12, 4, 5
    n = 300
    keys = jax.random.split(key(rng), n)
    gens = dict(normal=lambda k: crdata.sparse_normal_representations(k, D, K, S),
                biuniform=lambda k: crdata.sparse_biuniform_representations(k, 1., 3., D, K, S),
                spikes=lambda k: crdata.sparse_spikes(k, D, K, S))
    for name, g in gens.items():
        X, om = jax.vmap(g)(keys)
        X, om = np.asarray(X), np.asarray(om)
        cnt = np.bincount(om.ravel(), minlength=D)
        pr = K / D
        ctx.leq(np.max(np.abs(cnt - n * pr)), 6.5 * np.sqrt(n * pr * (1 - pr)), "distribution:support-uniform", kind=name, counts=cnt)
        v = X[X != 0]
        N = len(v)
        ctx.leq(abs(v.mean()), 6.5 * np.sqrt(np.mean(v ** 2) / N), "distribution:mean-zero", kind=name, mean=v.mean())
        want = {"normal": 1., "biuniform": 13 / 3, "spikes": 1.}[name]
        ctx.leq(abs(np.mean(v ** 2) - want), {"normal": 1.5, "biuniform": 2.6, "spikes": 1e-9}[name] * 6.5 / np.sqrt(N) + 1e-12,
                "distribution:second-moment", kind=name, got=np.mean(v ** 2))
        # signs of different vectors are independent
        M = np.sign(np.take_along_axis(X, om[:, :, None], 1))
        c = np.mean(M[:, :, 0] * M[:, :, 1])
        ctx.leq(abs(c), 6.5 / np.sqrt(n * K), "distribution:vectors-independent", kind=name, c=c)
        ctx.nontrivial(kind=name, m=float(v[0]))
    cor, B = .8, 6
    X, bl, _ = jax.vmap(lambda k: crdata.sparse_normal_blocks(k, 24, 2, B, 3, cor=cor))(keys)
    X, bl = np.asarray(X), np.asarray(bl)
    V = np.stack([X[j].reshape(4, B, 3)[bl[j]] for j in range(n)]).transpose(0, 1, 3, 2).reshape(-1, B)
    for lag in (1, 2):
        c = np.mean(V[:, lag:] * V[:, :-lag])
        ctx.leq(abs(c - cor ** lag), .12, "distribution:block-correlation", lag=lag, got=c)
    ctx.leq(abs(np.mean(V ** 2) - 1), .12, "distribution:block-variance", got=np.mean(V ** 2))
    cnt = np.bincount(bl.ravel(), minlength=4)
    ctx.leq(np.max(np.abs(cnt - n / 2)), 6.5 * np.sqrt(n / 4), "distribution:blocks-uniform", counts=cnt)
    V0 = np.asarray(jax.vmap(lambda k: crdata.sparse_normal_blocks(k, 24, 4, B, 1)[0])(keys)).reshape(-1, B)
    ctx.leq(abs(np.mean(V0[:, 1:] * V0[:, :-1])), 6.5 / np.sqrt(V0.shape[0] * (B - 1)), "distribution:uncorrelated-blocks")
    # random matrices: entry moments and rotation invariance
    m, N = 6, 5
    G = np.asarray(jax.vmap(lambda k: crdict.gaussian_mtx(k, m, N, normalize_atoms=False))(keys))
    ctx.leq(abs(np.mean(G ** 2) * m - 1), 1.5 * 6.5 / np.sqrt(G.size), "distribution:gaussian-variance", got=np.mean(G ** 2))
    R = np.asarray(jax.vmap(lambda k: crdict.rademacher_mtx(k, m, N))(keys))
    Q = np.asarray(jax.vmap(lambda k: crdict.random_onb(k, N))(keys))
    Q2 = np.asarray(jax.vmap(lambda k: crdict.random_orthonormal_rows(k, 3, m))(keys))
    Gn = np.asarray(jax.vmap(lambda k: crdict.gaussian_mtx(k, m, N))(keys))
    for name, A, d in (("gaussian", G, m), ("gaussian-unit", Gn, m), ("rademacher", R, m), ("onb", Q, N), ("rows", Q2, m)):
        ctx.leq(np.max(np.abs(A.mean(0))), 6.5 / np.sqrt(n * d), "distribution:entries-centred", kind=name)
        ctx.leq(np.max(np.abs((A ** 2).mean(0) * d - 1)), 1.5 * 6.5 / np.sqrt(n), "distribution:entries-scaled", kind=name)
    Bn = np.asarray(jax.vmap(lambda k: crdict.sparse_binary_mtx(k, 8, 6, 3, normalize_atoms=False, dense=True))(keys)).astype(float)
    ctx.leq(np.max(np.abs(Bn.mean(0) - 3 / 8)), 6.5 * np.sqrt(15 / 64 / n), "distribution:binary-rows-uniform")
    Ss = np.stack([np.stack([np.asarray(b) for b in crdata.random_subspaces_jit(k, 5, 2, 2)]) for k in keys[:120]])
    ctx.leq(np.max(np.abs(Ss.mean(0))), 6.5 / np.sqrt(120 * 5), "distribution:subspaces-centred")
    ctx.leq(abs(np.mean(np.sum(Ss[:, 0, :, 0] * Ss[:, 1, :, 0], 1))), 6.5 / np.sqrt(120 * 5), "distribution:subspaces-independent")


@group("C23", quick=10, thorough=80)
def subspaces(ctx, i):
    rng = ctx.rng
    for t in range(3):
        D = ri(rng, 1, 4)
        N = 3 * D + ri(rng, 0, 6)
        K = ri(rng, 1, 4)
        kk = key(rng)
        p = dict(N=N, D=D, K=K)
        ctx.nontrivial(k=str(np.asarray(kk)), **p)
        bases = (crdata.random_subspaces_jit if t % 2 else crdata.random_subspaces)(kk, N, D, K)
        ctx.ok(len(bases) == K, "subspaces:count", **p)
        for b in bases:
            b = np.asarray(b)
            ctx.close(b.T @ b, np.eye(D), "subspaces:orthonormal", tol=1e-9, shape=str(b.shape), **p)
        n = ri(rng, 1, 6)
        dims = [ri(rng, 1, D) for _ in range(K)]
        mixed = [b[:, :d] for b, d in zip(bases, dims)] if t == 2 else bases
        X = np.asarray((crdata.uniform_points_on_subspaces_jit if t % 2 else crdata.uniform_points_on_subspaces)(key(rng), mixed, n))
        if ctx.ok(X.shape == (N, K * n), "points:shape", got=str(X.shape), **p):
            ctx.close(nrm(X, axis=0), np.ones(K * n), "points:on-sphere", tol=1e-9, **p)
            for j, b in enumerate(mixed):
                b = np.asarray(b)
                Y = X[:, j * n:(j + 1) * n]
                ctx.close(b @ (b.T @ Y), Y, "points:in-subspace", tol=1e-9, j=j, **p)
                ctx.ok(np.linalg.matrix_rank(Y) == min(n, b.shape[1]), "points:spread", j=j, **p)
            if D > 1 and t < 2:
                c = [np.asarray(b).T @ X[:, j * n:(j + 1) * n] for j, b in enumerate(bases)]
                for u in range(K):
                    for v in range(u):
                        ctx.ok(np.min(np.max(np.abs(c[u] - c[v]), axis=0)) > 1e-9, "points:own-draw-per-subspace", u=u, v=v, **p)
        th = float(rng.uniform(1, 89.5)) if t else float(rng.choice([5, 30, 60, 90]))
        p = dict(theta=th, **p)
        for name, f, k in (("two", crdata.two_subspaces_at_angle, 2), ("three", crdata.three_subspaces_at_angle, 3)):
            if t == 1 and i % 3 == 0:
                f = getattr(crdata, f.__name__ + "_jit")
            Bs = [np.asarray(b) for b in f(key(rng), N, D, th)]
            ctx.ok(len(Bs) == k, "angles:count", name=name, **p)
            for b in Bs:
                ctx.close(b.T @ b, np.eye(D), "angles:orthonormal", tol=1e-8, name=name, shape=str(b.shape), **p)
            for u in range(k):
                for v in range(u):
                    s = np.linalg.svd(Bs[u].T @ Bs[v], compute_uv=False)
                    ctx.leq(abs(s[0] - np.cos(np.radians(th))), 1e-8, "angles:smallest-principal-angle", name=name, got=s, **p)
                    ctx.leq(np.max(np.append(s[1:], 0.)), 1e-8, "angles:others-right", name=name, got=s, **p)


@group("C23", quick=8, thorough=64)
def matrices(ctx, i):
    rng = ctx.rng
    for t in range(4):
        M, N = ri(rng, 1, 24), ri(rng, 1, 30)
        kk = key(rng)
        p = dict(M=M, N=N)
        ctx.nontrivial(k=str(np.asarray(kk)), **p)
        A = np.asarray(crdict.gaussian_mtx(kk, M, N))
        ctx.ok(A.shape == (M, N), "matrix:gaussian-shape", **p)
        ctx.close(nrm(A, axis=0), np.ones(N), "matrix:gaussian-unit-atoms", tol=1e-9, **p)
        U = np.asarray(crdict.gaussian_mtx(kk, M, N, normalize_atoms=False))
        ctx.close(U / nrm(U, axis=0), A, "matrix:gaussian-same-draw", tol=1e-9, scale=np.sqrt(N), **p)
        R = np.asarray(crdict.rademacher_mtx(kk, M, N))
        R1 = np.asarray(crdict.rademacher_mtx(kk, M, N, normalize_atoms=False))
        ctx.ok(R1.shape == (M, N) and set(np.unique(R1)) <= {-1, 1}, "matrix:rademacher-signs", **p)
        ctx.close(R, R1 / np.sqrt(M), "matrix:rademacher-unit", tol=1e-9, **p)
        d = ri(rng, 1, M)
        Bd = np.asarray(crdict.sparse_binary_mtx(kk, M, N, d, dense=True)).astype(float)
        B1 = np.asarray(crdict.sparse_binary_mtx(kk, M, N, d, normalize_atoms=False, dense=True)).astype(float)
        ctx.ok(B1.shape == (M, N) and set(np.unique(B1)) <= {0., 1.} and np.all(B1.sum(0) == d), "matrix:binary-ones", d=d, **p)
        ctx.close(Bd, B1 / np.sqrt(d), "matrix:binary-unit", tol=1e-6, d=d, **p)
        S = crdict.sparse_binary_mtx(kk, M, N, d)
        ctx.close(S.todense(), Bd, "matrix:binary-sparse", tol=1e-9, d=d, **p)
        S = crdict.sparse_binary_mtx(kk, M, N, d, normalize_atoms=False)
        ctx.close(np.asarray(S.todense()).astype(float), B1, "matrix:binary-sparse-ones", tol=1e-9, d=d, **p)
        Q = np.asarray(crdict.random_onb(kk, M))
        ctx.close(Q.T @ Q, np.eye(M), "matrix:onb", tol=1e-9, **p)
        m = min(M, N)
        P = np.asarray(crdict.random_orthonormal_rows(kk, m, N))
        ctx.ok(P.shape == (m, N), "matrix:rows-shape", **p)
        ctx.close(P @ P.T, np.eye(m), "matrix:orthonormal-rows", tol=1e-9, **p)
