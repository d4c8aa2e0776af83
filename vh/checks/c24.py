"""C24: dictionary metrics, fixed dictionaries and Grassmannian frames."""
import numpy as np
import scipy.linalg
import jax
import jax.numpy as jnp
import cr.sparse.dict as d
import cr.wavelets as crwt
from vh.core import group
from vh.lopcat import rv, ri, key

J = jnp.asarray
nrm = np.linalg.norm


def unit(A):
    return A / nrm(A, axis=0)


@group("C24", quick=14, thorough=112)
def metrics(ctx, i):
    rng = ctx.rng
    for t in range(6):
        cplx = bool((i + t) % 2)
        M, N = ri(rng, 1, 10), ri(rng, 2, 16)
        A = unit(rv(rng, (M, N), cplx)) if M > 1 else unit(rv(rng, (2, N), cplx))
        M = A.shape[0]
        if t == 3:                       # structured: exact duplicates or orthogonal atoms
            A = np.concatenate([np.eye(M), scipy.linalg.dft(M) / np.sqrt(M)], 1) if cplx else \
                np.concatenate([np.eye(M), np.linalg.qr(rng.normal(size=(M, M)))[0]], 1)
            N = 2 * M
        p = dict(M=M, N=N, cplx=cplx)
        ctx.nontrivial(a=A[0, 0], **p)
        G = A.conj().T @ A
        ctx.close(d.gram(J(A)), G, "metrics:gram", scale=nrm(G), **p)
        F = A @ A.conj().T
        ctx.close(d.frame(J(A)), F, "metrics:frame", scale=nrm(F), **p)
        U = rv(rng, (M, N), cplx) * 3
        ctx.close(d.gram(J(U)), U.conj().T @ U, "metrics:gram-any", scale=nrm(U) ** 2, **p)
        ctx.close(d.frame(J(U)), U @ U.conj().T, "metrics:frame-any", scale=nrm(U) ** 2, **p)
        off = np.abs(G) - np.diag(np.diag(np.abs(G)))
        c = off.max()
        ctx.leq(abs(float(d.coherence(J(A))) - c), 1e-9, "metrics:coherence", got=float(d.coherence(J(A))), want=c, **p)
        v, ij = d.coherence_with_index(J(A))
        a, b = int(ij[0]), int(ij[1])
        ctx.ok(a != b and abs(abs(np.vdot(A[:, a], A[:, b])) - c) < 1e-9 and abs(float(v) - c) < 1e-9, "metrics:coherence-index", ij=(a, b), **p)
        s = np.sort(off, axis=1)[:, ::-1][:, :N - 1]
        bab = np.cumsum(s, 1).max(0)
        ctx.close(d.babel(J(A)), bab, "metrics:babel", tol=1e-9, scale=nrm(bab), **p)
        # brute force definition on small dictionaries
        if N <= 7:
            import itertools
            for k in range(1, N):
                w = max(max(sum(np.abs(G[l, q]) for q in L) for l in range(N) if l not in L) for L in itertools.combinations(range(N), k))
                ctx.leq(abs(w - float(d.babel(J(A))[k - 1])), 1e-9, "metrics:babel-definition", k=k, **p)
        B = unit(rv(rng, (M, ri(rng, 1, 9)), cplx or bool(rng.integers(2))))
        H = np.abs(A.conj().T @ B)
        ctx.leq(abs(float(d.mutual_coherence(J(A), J(B))) - H.max()), 1e-9, "metrics:mutual-coherence", **p)
        v, ij = d.mutual_coherence_with_index(J(A), J(B))
        ctx.ok(abs(H[int(ij[0]), int(ij[1])] - H.max()) < 1e-9 and abs(float(v) - H.max()) < 1e-9, "metrics:mutual-coherence-index", **p)
        sv = np.linalg.svd(U, compute_uv=False)
        ctx.close(d.frame_bounds(J(U)), sv[[0, -1]], "metrics:frame-bounds", tol=1e-9, scale=sv[0], **p)
        ctx.leq(abs(float(d.upper_frame_bound(J(U))) - sv[0]), 1e-9 * sv[0], "metrics:upper-bound", **p)
        ctx.leq(abs(float(d.lower_frame_bound(J(U))) - sv[-1]), 1e-9 * sv[0], "metrics:lower-bound", **p)
        x = rv(rng, (M,), cplx)
        if N >= M:
            e = nrm(U.conj().T @ x) ** 2
            lo, up = float(d.lower_frame_bound(J(U))), float(d.upper_frame_bound(J(U)))
            ctx.ok(lo ** 2 * nrm(x) ** 2 <= e * (1 + 1e-9) and e <= up ** 2 * nrm(x) ** 2 * (1 + 1e-9), "metrics:frame-inequality", **p)
        # matching atoms: B holds permuted, phase-rotated copies of some atoms
        k = ri(rng, 0, N)
        C = unit(rv(rng, (M, N), cplx))
        q = rng.permutation(N)
        for j in q[:k]:
            C[:, j] = A[:, j] * (np.exp(1j * rng.uniform(0, 6)) if cplx else rng.choice([-1, 1]))
        C = C[:, rng.permutation(N)]
        th = float(rng.choice([.01, .1, .3]))
        want = np.mean(1 - np.abs(A.conj().T @ C).max(1) < th)
        if np.min(np.abs(1 - np.abs(A.conj().T @ C).max(1) - th)) > 1e-9:
            got = float(d.matching_atoms_ratio(J(A), J(C), th))
            ctx.leq(abs(got - want), 1e-6, "metrics:matching-atoms", got=got, want=want, copies=k, th=th, **p)
            ctx.ok(got >= k / N - 1e-6, "metrics:copies-match", got=got, copies=k, **p)
        got = float(d.matching_atoms_ratio(J(A), J(A)))
        ctx.leq(abs(got - 1), 1e-6, "metrics:self-match", got=got, **p)


@group("C24", quick=8, thorough=32)
def bases(ctx, i):
    rng = ctx.rng
    n = 2 ** (i % 8)
    p = dict(n=n)
    ctx.nontrivial(**p)
    H = np.array(scipy.linalg.hadamard(n))
    ctx.ok(np.array_equal(np.asarray(d.hadamard(n)), H), "bases:hadamard", **p)
    ctx.close(d.hadamard_basis(n), H / np.sqrt(n), "bases:hadamard-basis", tol=1e-6, **p)
    ctx.close(d.dirac_hadamard_basis(n), np.hstack([np.eye(n), H / np.sqrt(n)]), "bases:dirac-hadamard", tol=1e-6, **p)
    for m in (n, ri(rng, 1, 40)):
        C = scipy.fft.dct(np.eye(m), axis=0, norm="ortho").T       # columns: DCT atoms
        got = np.asarray(d.cosine_basis(m))
        ctx.ok(got.shape == (m, m), "bases:cosine-shape", m=m)
        ctx.close(got.T @ got, np.eye(m), "bases:cosine-orthonormal", tol=1e-6, m=m)
        ctx.close(got, C.T, "bases:cosine", tol=1e-6, m=m)
        ctx.close(d.dirac_cosine_basis(m), np.hstack([np.eye(m), C.T]), "bases:dirac-cosine", tol=1e-6, m=m)
        F = np.exp(2j * np.pi * np.outer(np.arange(m), np.arange(m)) / m) / np.sqrt(m)
        ctx.close(d.fourier_basis(m), F, "bases:fourier", tol=1e-9, m=m)
    ctx.close(d.dirac_hadamard_cosine_basis(n), np.hstack([np.eye(n), H / np.sqrt(n), scipy.fft.dct(np.eye(n), axis=0, norm="ortho")]),
              "bases:dirac-hadamard-cosine", tol=1e-6, **p)
    for bad in (3, 6, 12, 100):
        raised = False
        try:
            d.hadamard(bad)
        except Exception:
            raised = True
        ctx.ok(raised, "bases:hadamard-size-rejected", n=bad)
    if n >= 8:
        for name in ("haar", "db2", "db4", "sym4", "coif1"):
            w = crwt.to_wavelet(name)
            mx = crwt.dwt_max_level(n, w.dec_len)
            for level in [None] + list(range(1, mx + 1)):
                W = np.asarray(d.wavelet_basis(n, name, level))
                q = dict(n=n, name=name, level=str(level))
                if mx >= 1:
                    ctx.close(W.T @ W, np.eye(n), "bases:wavelet-orthonormal", tol=1e-6, **q)
                    x = rng.normal(size=n)
                    co = crwt.wavedec(J(x), name, mode="periodization", level=mx if level is None else level)
                    ctx.close(W.T @ x, np.concatenate([np.asarray(c) for c in co]), "bases:wavelet-analysis", tol=1e-6, scale=nrm(x), **q)
            raised = False
            try:
                d.wavelet_basis(n, name, mx + 1)
            except Exception:
                raised = True
            ctx.ok(raised, "bases:wavelet-level-rejected", n=n, name=name)


def one_step(A, frac, mu):
    """Gram matrices one alternating projection can lead to (the pair AT a threshold may fall on either side by rounding)"""
    m, n = A.shape
    g = A.T @ A
    ab = np.abs(g)
    iu = np.triu_indices(n, 1)
    so = np.sort(ab[iu])
    n_off = n * n - n
    hi, lo = so[(round(frac * n_off) - 1) // 2], so[(round((1 - frac) * n_off) - 1) // 2]
    E = ~np.eye(n, dtype=bool)
    at = lambda v: [(i, j) for i, j in zip(*np.where((np.abs(ab - v) < 1e-12) & E))]
    base = np.where(E & (ab > hi + 1e-12), g * mu, g)
    base = np.where(E & (ab < lo - 1e-12), base / mu, base)
    for ph in [None] + at(hi):
        for pl in [None] + at(lo):
            h = base.copy()
            if ph:
                h[ph] = g[ph] * mu
            if pl:
                h[pl] = g[pl] / mu
            U, s, VT = np.linalg.svd(h)
            h = (U[:, :m] * s[:m]) @ VT[:m]
            q = 1 / np.sqrt(np.diag(h))
            h = q[:, None] * h * q
            U, s, VT = np.linalg.svd(h)
            yield (U[:, :m] * s[:m]) @ U[:, :m].T


@group("C24", quick=6, thorough=48)
def grassmannian(ctx, i):
    rng = ctx.rng
    m, n = [(10, 20), (6, 16), (20, 40), (8, 12), (5, 10), (16, 32)][i % 6]
    ctx.leq(abs(d.minimum_coherence(m, n) - np.sqrt((n - m) / (m * (n - 1)))), 1e-12, "grassmannian:welch-bound", m=m, n=n)
    f = jax.jit(lambda A: d.build_grassmannian_frame(A, iterations=25))
    frac, mu = float(rng.choice([.9, .8])), float(rng.choice([.9, .7]))
    f1 = jax.jit(lambda A: d.build_grassmannian_frame(A, frac=frac, shrink_mu=mu, iterations=1))
    gain = []
    for t in range(5):
        A = unit(rng.normal(size=(m, n)))
        F = np.asarray(f(J(A)) if t else d.build_grassmannian_frame(J(A)))
        p = dict(m=m, n=n)
        ctx.nontrivial(a=A[0, 0], **p)
        if not ctx.ok(F.shape == (m, n) and np.all(np.isfinite(F)), "grassmannian:shape", **p):
            return
        nn = nrm(F, axis=0)
        ctx.leq(np.sqrt(np.mean((nn - 1) ** 2)), .012, "grassmannian:unit-atoms", norms=nn, **p)
        Fn = F / nn
        c0 = np.max(np.abs(A.T @ A) - 2 * np.eye(n))
        c = np.max(np.abs(Fn.T @ Fn) - 2 * np.eye(n))
        gain.append(c / c0)
        ctx.ok(c >= d.minimum_coherence(m, n) - 1e-9 and c0 >= d.minimum_coherence(m, n) - 1e-9, "grassmannian:bound-respected", **p)
        ctx.ok(np.linalg.matrix_rank(F) == m, "grassmannian:spans", **p)
        F1 = np.asarray(f1(J(A)))
        dist = min(nrm(F1.T @ F1 - h) for h in one_step(A, frac, mu))
        ctx.leq(dist, 1e-8 * n, "grassmannian:one-projection", frac=frac, mu=mu, **p)
    # a statistical monitor: alternating projections need not lower the coherence of every single start
    ctx.leq(float(np.median(gain)), .95, "grassmannian:coherence-falls", gain=np.array(gain), m=m, n=n)
    F0 = np.asarray(d.build_grassmannian_frame(J(A), iterations=0))
    ctx.close(F0.T @ F0, A.T @ A, "grassmannian:no-iterations-same-gram", tol=1e-9, scale=n, **p)
