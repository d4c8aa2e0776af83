"""C05: spectral estimates (norms, dominant eigenpairs, truncated SVD, frame bounds) are right."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.dict as crdict
import cr.sparse.sls as sls
import cr.sparse.sls.svd as crsvd
import cr.nimble.svd as lasvd
from vh.core import group
from vh.lopcat import rv, ri, key

J = jnp.asarray


def orth(rng, n, k, cp=False):
    return np.linalg.qr(rv(rng, (n, k), cp))[0]


def spectrum(rng, r, ratio):
    """descending positive values with s[1] <= ratio*s[0]"""
    s = np.sort(rng.uniform(0.05, ratio, size=r))[::-1]
    s[0] = 1.0
    return s * 10.0 ** rng.uniform(-3, 3)


def with_spectrum(rng, m, n, s, cp=False):
    r = len(s)
    return orth(rng, m, r, cp) @ np.diag(s) @ orth(rng, n, r, cp).conj().T


@group("C05", quick=40, thorough=400)
def norm_estimate(ctx, i):
    rng = ctx.rng
    cp = i % 3 == 2
    m, n = ri(rng, 1, 20), ri(rng, 1, 20)
    r = ri(rng, 1, min(m, n))
    A = with_spectrum(rng, m, n, spectrum(rng, r, 0.8), cp)
    s = np.linalg.norm(A, 2)
    op = lop.matrix(J(A))
    est = lop.normest_jit(op) if i % 2 else lop.normest(op)
    ctx.leq(est, s * (1 + 1e-9), "norm-upper", m=m, n=n, A=A)
    ctx.leq(s * (1 - 1e-3), est, "norm-converged", m=m, n=n, A=A)
    # any budget gives a lower bound on the norm
    for it in (1, 2, 5):
        e = lop.normest(op, max_iters=it)
        ctx.leq(e, s * (1 + 1e-9), "norm-upper-budget", iters=it)
        ctx.ok(float(e) > 0, "norm-positive-budget", iters=it)
    c = float(rng.uniform(-5, 5))
    ctx.close(lop.normest(lop.scale(op, c)), abs(c) * float(est), "norm-homogeneous", tol=1e-3)
    ctx.close(lop.normest(lop.adjoint(op)), float(est), "norm-of-adjoint", tol=2e-3)
    ctx.nontrivial(m=m, n=n, s=float(s), cp=cp)


@group("C05", quick=16, thorough=100)
def norm_structured(ctx, i):
    rng = ctx.rng
    n = ri(rng, 2, 64)
    k = i % 8
    cases = [
        (lambda: lop.fourier_basis(n), 1.0), (lambda: lop.cosine_basis(n), 1.0),
        (lambda: lop.dirac_fourier_basis(n), np.sqrt(2)),
        (lambda: lop.scalar_mult(-3.5, n), 3.5), (lambda: lop.zero(n), 0.0), (lambda: lop.flipud(n), 1.0),
        (lambda: lop.random_orthonormal_rows_dict(key(rng), max(1, n // 2), n), 1.0),
        (lambda: lop.convolve2D((6, 7), J(np.ones((1, 1)) * 2.5), offset=(0, 0)), 2.5)]
    op, want = cases[k][0](), cases[k][1]
    ctx.close(lop.normest(op), want, "norm-known", tol=1e-4, scale=max(want, 1e-3), k=k, n=n)
    if k == 3:
        d = np.abs(rv(rng, (n,)))
        d[0] = 2 * d.max() + 1
        ctx.close(lop.normest(lop.diagonal(J(d))), d[0], "norm-known", tol=1e-3)
    ctx.nontrivial(k=k, n=n)


@group("C05", quick=30, thorough=300)
def power(ctx, i):
    rng = ctx.rng
    n = ri(rng, 1, 24)
    s = spectrum(rng, n, 0.7)
    Q = orth(rng, n, n)
    P = Q @ np.diag(s) @ Q.T
    b = rv(rng, (n,))
    op = lop.matrix(J(P))
    f = sls.power_iterations_jit if i % 2 else sls.power_iterations
    sol = f(op, J(b))
    lam = s[0]
    ctx.leq(sol.s, lam * (1 + 1e-9), "eig-upper", n=n, s=s)
    ctx.leq(lam * (1 - 1e-2), sol.s, "eig-converged", n=n, s=s)
    ctx.close(np.linalg.norm(np.asarray(sol.v)), 1.0, "eigvec-unit", tol=1e-9)
    ctx.leq(np.linalg.norm(P @ np.asarray(sol.v) - lam * np.asarray(sol.v)), 0.15 * lam, "eigvec-residual", n=n)
    ctx.ok(1 <= int(sol.iterations) <= 100, "iterations-bounded", it=int(sol.iterations))
    tight = sls.power_iterations(op, J(b), max_iters=2000, error_tolerance=1e-12)
    ctx.close(tight.s, lam, "eig-tight", tol=1e-7)
    ctx.leq(np.linalg.norm(P @ np.asarray(tight.v) - lam * np.asarray(tight.v)), 1e-4 * lam, "eigvec-residual-tight")
    k = ri(rng, 1, 6)
    lim = sls.power_iterations(op, J(b), max_iters=k, error_tolerance=0.)
    ctx.ok(int(lim.iterations) <= k, "budget-respected", it=int(lim.iterations), k=k)
    # reference run of k power steps
    v = b.copy()
    for _ in range(k):
        v = v / np.linalg.norm(v)
        lam_k = v @ P @ v
        v = P @ v
    if int(lim.iterations) == k:
        ctx.close(lim.s, lam_k, "rayleigh-quotient", tol=1e-7)
    ctx.nontrivial(n=n, lam=float(lam))


@group("C05", quick=16, thorough=160)
def truncated_svd(ctx, i):
    rng = ctx.rng
    m, n = ri(rng, 6, 24), ri(rng, 6, 24)
    r = min(m, n)
    k = ri(rng, 1, max(1, min(4, r // 2)))
    s = np.sort(rng.uniform(0.2, 1, r))[::-1] * 0.9 ** np.arange(r) * 10.0 ** rng.uniform(-1, 1)
    A = with_spectrum(rng, m, n, s)
    T = lop.matrix(J(A))
    p0 = lasvd.lanbpro_random_start(key(rng), T)
    U, S, V, bnd, ncon, st = crsvd.lansvd_simple_jit(T, k, p0)
    U, S, V = np.asarray(U), np.asarray(S), np.asarray(V)
    ctx.ok(U.shape == (m, k) and V.shape == (n, k) and S.shape == (k,), "svd-shapes")
    if not ctx.finite(S, "svd-finite", m=m, n=n, k=k):
        return
    ctx.ok(np.all(np.diff(S) <= 1e-9 * s[0]), "svd-sorted", S=S)
    ctx.ok(np.all(S <= s[:k] * (1 + 1e-6)), "svd-upper", S=S, s=s)
    ctx.close(U.T @ U, np.eye(k), "svd-U-orthonormal", tol=1e-6)
    ctx.close(V.T @ V, np.eye(k), "svd-V-orthonormal", tol=1e-6)
    # the Lanczos identity A V = U S holds for every Krylov dimension
    ctx.close(A @ V, U * S, "svd-vectors", tol=1e-6, scale=s[0])
    if k + max(8, k) >= r:       # the Krylov space is the whole space
        ctx.close(S, s[:k], "svd-values", tol=1e-6)
    ctx.nontrivial(m=m, n=n, k=k, s0=float(s[0]))


@group("C05", quick=16, thorough=160)
def frame_bounds(ctx, i):
    rng = ctx.rng
    cp = i % 3 == 0
    m = ri(rng, 1, 10)
    n = m + ri(rng, 0, 12)
    A = rv(rng, (m, n), cp)
    s = np.linalg.svd(A, compute_uv=False)
    b = np.asarray(crdict.frame_bounds(J(A)))
    ctx.close(b, [s[0], s[-1]], "frame-bounds", tol=1e-8)
    ctx.close(crdict.upper_frame_bound(J(A)), s[0], "upper-bound", tol=1e-8)
    ctx.close(crdict.lower_frame_bound(J(A)), s[-1], "lower-bound", tol=1e-8, scale=s[0])
    ctx.close(lop.upper_frame_bound(lop.matrix(J(A))), s[0], "upper-bound-operator", tol=1e-8)
    for _ in range(4):
        y = rv(rng, (m,), cp)
        e = np.linalg.norm(A.conj().T @ y) / np.linalg.norm(y)
        ctx.ok(b[1] * (1 - 1e-9) - 1e-12 <= e <= b[0] * (1 + 1e-9), "frame-inequality", e=e, bounds=b)
    ctx.nontrivial(m=m, n=n, s=float(s[0]))


LANK = ["plain", "decay", "lowrank", "clustered", "wide-exhausted", "tall-full"]


@group("C05", quick=12, thorough=120)
def lanczos(ctx, i):
    """k steps of the bidiagonalisation: A V = U B, A^T U = V B^T, semi-orthogonal bases; error bounds of the truncated SVD"""
    rng = ctx.rng
    kind = LANK[i % len(LANK)]
    m, n = ri(rng, 5, 40), ri(rng, 5, 40)
    if kind == "wide-exhausted":
        m, n = min(m, n), max(m, n) + 1
    elif kind == "tall-full":
        m, n = max(m, n) + 1, min(m, n)
    r = min(m, n)
    s = np.sort(rng.uniform(.3, 1., r))[::-1]
    if kind == "decay":
        s = .6 ** np.arange(r)
    elif kind == "clustered":
        s = np.where(np.arange(r) < r // 2, 1., .5) * (1 + .01 * rng.random(r))
        s = np.sort(s)[::-1]
    rank = r
    if kind == "lowrank":
        rank = max(2, r // 2)
        s[rank:] = 0
    s = s * 10. ** rng.uniform(-2, 2)
    A = with_spectrum(rng, m, n, s)
    T = lop.matrix(J(A))
    p0 = rv(rng, (m,)) * float(rng.choice([1e-3, 1., 100.]))
    k = ri(rng, 1, max(1, min(rank, 20) - 1))
    st = crsvd.lanbpro_jit(T, k, J(p0)) if i % 2 else crsvd.lanbpro(T, k, J(p0))
    U, V, al, be, pp = (np.asarray(v) for v in (st.U, st.V, st.alpha, st.beta, st.p))
    p = dict(kind=kind, m=m, n=n, k=k, rank=rank)
    ctx.ok(U.shape == (m, k) and V.shape == (n, k) and al.shape == (k,) and be.shape == (k + 1,), "lanczos:shapes", **p)
    ctx.ok(int(st.iterations) == k, "lanczos:iterations", got=int(st.iterations), **p)
    ctx.ok(bool(np.all(al >= 0) and np.all(be >= 0)), "lanczos:nonnegative", **p)
    ctx.close(U[:, 0] * be[0], p0, "lanczos:start", scale=np.linalg.norm(p0), tol=1e-9, **p)
    B = np.zeros((k + 1, k))
    B[np.arange(k), np.arange(k)] = al
    B[np.arange(k) + 1, np.arange(k)] = be[1:]
    if np.min(al) > 1e-7 * s[0] and np.min(be[1:]) > 1e-7 * s[0]:
        W = np.column_stack([U, pp / be[k]])
        ctx.close(A @ V, W @ B, "lanczos:AV=UB", scale=s[0], tol=1e-7, **p)
        ctx.close(A.T @ U, V @ B[:k].T, "lanczos:AtU=VBt", scale=s[0], tol=1e-7, **p)
        ctx.close(W.T @ W, np.eye(k + 1), "lanczos:U-orthonormal", scale=1., tol=1e-6, **p)
        ctx.close(V.T @ V, np.eye(k), "lanczos:V-orthonormal", scale=1., tol=1e-6, **p)
        # stepping by hand gives the same
        from cr.nimble.svd import lanbpro_options_init
        o = lanbpro_options_init(k)
        h = crsvd.lanbpro_init(T, k, J(p0), o)
        ctx.ok(int(h.iterations) == 1, "lanczos:init-count", **p)
        for _ in range(k - 1):
            h = crsvd.lanbpro_iteration_jit(T, h, o)
        ctx.close(np.asarray(h.alpha), al, "lanczos:stepwise-alpha", scale=s[0], tol=1e-7, **p)
        ctx.close(np.asarray(h.beta)[1:], be[1:], "lanczos:stepwise-beta", scale=s[0], tol=1e-7, **p)
        if k + 2 < rank:
            for f in (crsvd.new_p_vec, crsvd.new_p_vec_jit):
                q = np.asarray(f(T, J(U), k, .7)[0])
                ctx.leq(abs(np.linalg.norm(q) - 1), 1e-9, "lanczos:new-direction-unit", **p)
                ctx.leq(np.abs(U.T @ q).max(), 1e-6, "lanczos:new-direction-orthogonal", **p)
    # truncated SVD: each value lies within its bound of a true singular value, the exhausted space has converged
    kk = ri(rng, 1, min(r, 10))
    Us, S, Vs, bnd, nc, _ = crsvd.lansvd_simple_jit(T, kk, J(p0))
    Us, S, Vs, bnd = (np.asarray(v) for v in (Us, S, Vs, bnd))
    j = min(kk + max(8, kk), min(r, max(20, 4 * kk)))
    p["kk"] = kk
    if not ctx.finite(bnd, "svd:bounds-finite", **p) or not ctx.finite(S, "svd:values-finite", **p):
        return
    ctx.ok(0 <= int(nc) <= kk, "svd:converged-count-range", got=int(nc), **p)
    for q in range(kk if kind == "decay" or j == rank == r else 0):     # (the bounds are refined with estimated gaps)
        ctx.leq(np.abs(s - S[q]).min(), 10 * bnd[q], "svd:value-within-bound", slack=1e-9 * s[0], q=q, **p)
    if j == r and rank == r:
        ctx.ok(int(nc) == kk, "svd:all-converged", got=int(nc), bnd=bnd, **p)
        ctx.close(S, s[:kk], "svd:exhausted-values", tol=1e-8, scale=s[0], **p)
    ctx.close(A @ Vs, Us * S, "svd:triplets", tol=1e-6, scale=s[0], **p)
    ctx.nontrivial(x=float(p0[0]), **p)


@group("C05", quick=10, thorough=100)
def restarts(ctx, i):
    """spectra with repeated values exhaust the Krylov space: the iteration restarts, and must stay orthogonal to what it has"""
    rng = ctx.rng
    m, n = ri(rng, 24, 110), ri(rng, 24, 110)
    r = min(m, n)
    s = [np.r_[np.full(5, 100.), np.ones(r - 5)], np.r_[np.full(3, 2.), np.full(4, 1.), np.full(r - 7, .5)], np.ones(r),
         np.r_[np.logspace(2, 0, 6), np.full(r - 6, 1e-2)], np.logspace(0, -9, r)][i % 5]
    A = with_spectrum(rng, m, n, s)
    T = lop.matrix(J(A))
    p0 = rv(rng, (m,)) * float(rng.choice([1e-3, 1., 100.]))
    k = ri(rng, 8, min(r - 2, 40))
    st = crsvd.lanbpro_jit(T, k, J(p0))
    U, V, al, be = (np.asarray(v) for v in (st.U, st.V, st.alpha, st.beta))
    p = dict(m=m, n=n, k=k, spectrum=i % 5, restarts=int(np.sum(al == 0) + np.sum(be[1:] == 0)))
    ctx.close(U.T @ U, np.eye(k), "restarts:U-orthonormal", scale=1., tol=1e-6, **p)
    ctx.close(V.T @ V, np.eye(k), "restarts:V-orthonormal", scale=1., tol=1e-6, **p)
    B = np.diag(al) + np.diag(be[1:k], -1)
    ctx.close(A.T @ U, V @ B.T, "restarts:AtU=VBt", scale=s[0], tol=1e-6, **p)
    kk = ri(rng, 2, 12)
    Us, S, Vs, bnd, nc, _ = crsvd.lansvd_simple_jit(T, kk, J(p0))
    Us, S, Vs = (np.asarray(v) for v in (Us, S, Vs))
    p["kk"] = kk
    ctx.close(Us.T @ Us, np.eye(kk), "restarts:left-vectors", scale=1., tol=1e-6, **p)
    ctx.close(Vs.T @ Vs, np.eye(kk), "restarts:right-vectors", scale=1., tol=1e-6, **p)
    ctx.leq(np.max(S - s[:kk]), 1e-7 * s[0], "restarts:values-interlace", **p)
    ctx.count("lanczos:restarts", p["restarts"])
    ctx.nontrivial(x=float(p0[0]), **p)


@group("C05", quick=12, thorough=120)
def applications(ctx, i):
    """every vector handed to the operator is recorded: each is the previous image, normalised; stopping rule and budget follow from the log"""
    rng = ctx.rng
    n = ri(rng, 3, 12)
    cp = i % 4 == 3
    which = ["normest", "power"][i % 2]
    A = with_spectrum(rng, n + ri(rng, 0, 4), n, spectrum(rng, n, .98), cp)
    if which == "power":
        A = A.conj().T @ A
    log = []
    base = lop.matrix(J(A))

    def times(x):
        jax.debug.callback(lambda v: log.append(np.array(v)), x, ordered=True)
        return base.times(x)
    T = lop.Operator(times=times, trans=base.trans, shape=base.shape, real=not cp)
    P = A.conj().T @ A if which == "normest" else A
    for mi, tl in ((ri(rng, 1, 9), 0.), (100, 10. ** rng.uniform(-8, -2)), (60, 10. ** rng.uniform(-3, -1)), (0, 1e-6)):
        if mi == 0 and which == "normest":
            continue
        log.clear()
        b = rv(rng, (n,), cp)
        if which == "normest":
            out = float(lop.normest(T, max_iters=mi, error_tolerance=tl)) ** 2
        else:
            sol = sls.power_iterations(T, J(b), max_iters=mi, error_tolerance=tl)
            out = float(np.real(sol.s))
        jax.effects_barrier()
        p = dict(which=which, n=n, cp=cp, mi=mi, tl=tl, calls=len(log))
        ctx.leq(len(log), mi, "applications:budget", **p)
        e = [float(np.real(np.vdot(v, P @ v))) for v in log]
        for t, v in enumerate(log):
            ctx.leq(abs(np.linalg.norm(v) - 1), 1e-9, "applications:unit-vector", t=t, **p)
            if t:
                w = P @ log[t - 1]
                ctx.close(v, w / np.linalg.norm(w), "applications:previous-image", scale=1., tol=1e-7, t=t, **p)
                ctx.leq(e[t - 1], e[t], "applications:estimate-grows", slack=1e-9 * e[t], t=t, **p)
        if which == "power":
            ctx.ok(int(sol.iterations) == len(log), "applications:iterations", got=int(sol.iterations), **p)
            if log:
                ctx.close(log[0], b / np.linalg.norm(b), "applications:start", scale=1., tol=1e-9, **p)
        if not log:
            continue
        ctx.close(out, e[-1], "applications:reported-estimate", scale=e[-1], tol=1e-9, **p)
        ch = [np.inf] + [abs(e[t] - e[t - 1]) / e[t - 1] for t in range(1, len(e))]
        ctx.ok(all(c > tl * (1 - 1e-6) - 1e-13 for c in ch[:-1]), "applications:stops-when-settled", changes=np.array(ch[1:]), **p)
        if len(log) < mi:
            ctx.leq(ch[-1], tl, "applications:not-before", slack=1e-6 * tl + 1e-13, **p)
        ctx.nontrivial(e=e[-1], **p)


@group("C05", quick=16, thorough=200)
def degenerate(ctx, i):
    """zero and rank deficient operators, repeated values, starts in a null space: everything returned is finite, normalised and right"""
    rng = ctx.rng
    m, n = ri(rng, 2, 14), ri(rng, 2, 14)
    K = min(m, n)
    r = [0, 1, ri(rng, 0, K), K][i % 4]
    c = 10.0 ** rng.uniform(-3, 3)
    if i % 3 == 0:
        A = rng.integers(-2, 3, (m, r)).astype(float) @ rng.integers(-2, 3, (r, n)).astype(float)
    elif i % 3 == 1:
        A = rng.normal(size=(m, r)) @ rng.normal(size=(r, n))
    else:
        A = np.zeros((m, n))
        A[range(r), range(r)] = rng.integers(1, 4, r)
    A = A * c
    s = np.linalg.svd(A, compute_uv=False)
    r = int(np.sum(s > 1e-10 * max(s[0], 1e-300)))
    top = s[0] if s[0] > 0 else 1.
    T = lop.matrix(J(A))
    p0 = rng.uniform(-.5, .5, m)
    if i % 5 == 4 and r < m:      # a start in the null space of A^T
        Un = np.linalg.svd(A)[0][:, r:] if i % 3 != 2 else np.eye(m)[:, r:]
        p0 = Un @ rng.normal(size=m - r)
    p = dict(m=m, n=n, r=r, kind=i % 3, top=float(s[0]))
    e = float(lop.normest(T, max_iters=200))
    ctx.finite(e, "degenerate:norm-finite", **p)
    ctx.leq(e, s[0] * (1 + 1e-9), "degenerate:norm-upper", **p)
    ctx.leq(.5 * s[0], e, "degenerate:norm-lower", **p)
    k = ri(rng, 1, K)
    U, S, V, bnd, ncon, _ = [np.asarray(t) if hasattr(t, "shape") else t for t in
                             (crsvd.lansvd_simple_jit if i % 2 else crsvd.lansvd_simple)(T, k, J(p0))]
    full = k + max(8, k) >= K     # the Krylov space is the whole space
    if not ctx.finite(np.r_[S.ravel(), U.ravel(), V.ravel(), np.asarray(bnd).ravel()], "degenerate:svd-finite", k=k, **p):
        return
    ctx.close(U.T @ U, np.eye(k), "degenerate:svd-left-orthonormal", scale=1., tol=1e-6, k=k, **p)
    ctx.close(V.T @ V, np.eye(k), "degenerate:svd-right-orthonormal", scale=1., tol=1e-6, k=k, **p)
    ctx.close(A @ V, U * S, "degenerate:svd-vectors", scale=top, tol=1e-6, k=k, **p)
    if full:
        ctx.close(S, s[:k], "degenerate:svd-values", scale=top, tol=1e-7, k=k, **p)
        # some singular value lies within the reported bound of each returned one
        miss = np.min(np.abs(S[:, None] - s[None, :]), axis=1) - np.asarray(bnd).ravel()[:k]
        ctx.leq(np.max(miss), 1e-7 * top, "degenerate:svd-bounds", k=k, **p)
        ctx.leq(int(ncon), min(k, np.sum(S > 0)), "degenerate:svd-converged-count", k=k, **p)
    st = crsvd.lanbpro_jit(T, K, J(p0))
    Us, Vs, al, be, pv = [np.asarray(t) for t in (st.U, st.V, st.alpha, st.beta, st.p)]
    if ctx.finite(np.r_[Us.ravel(), Vs.ravel(), al, be, pv], "degenerate:lanczos-finite", **p):
        ctx.close(Us.T @ Us, np.eye(K), "degenerate:lanczos-left", scale=1., tol=1e-6, **p)
        ctx.close(Vs.T @ Vs, np.eye(K), "degenerate:lanczos-right", scale=1., tol=1e-6, **p)
        B = np.zeros((K + 1, K))
        B[range(K), range(K)] = al
        B[range(1, K + 1), range(K)] = be[1:]
        un = pv / be[K] if be[K] > 0 else 0 * pv
        ctx.close(A @ Vs, np.c_[Us, un] @ B, "degenerate:lanczos-identity", scale=top, tol=1e-6, **p)
    # power iterations on positive semidefinite, zero and negative definite operators
    P = A.T @ A * (-1 if i % 2 else 1)
    b = rng.normal(size=n)
    sol = sls.power_iterations(lop.matrix(J(P)), J(b), max_iters=500, error_tolerance=1e-13)
    v = np.asarray(sol.v)
    if ctx.finite(np.r_[v, float(sol.s)], "degenerate:power-finite", **p):
        ctx.close(np.linalg.norm(v), 1., "degenerate:power-unit", scale=1., tol=1e-9, **p)
        ctx.leq(np.linalg.norm(P @ v - float(sol.s) * v), .05 * top ** 2 if r else 1e-12, "degenerate:power-eigenpair", **p)
        ctx.leq(abs(float(sol.s)), s[0] ** 2, "degenerate:power-upper", slack=1e-9 * top ** 2, **p)
    ctx.nontrivial(x=float(p0[0]), k=k, **p)
