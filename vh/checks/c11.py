"""C11: (fast) iterative shrinkage performs its published iteration and reaches the regularised optimum."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.sls as sls
import cr.sparse.geo as geo
from vh.core import group
from vh.lopcat import rv, ri
from vh.checks.c13 import soft

J = jnp.asarray
nrm = np.linalg.norm


def problem(rng, kind):
    """-> A (dense, flattened), operator, b, x0, shapes, basis (B dense), basis op"""
    cp = kind == "complex"
    n = ri(rng, 3, 16)
    m = max(2, n + ri(rng, -6, 6))
    A = rv(rng, (m, n), cp) / np.sqrt(m)
    x = rv(rng, (n,), cp) * (rng.random(n) < .4)
    b = A @ x + .05 * rv(rng, (m,), cp)
    op = lop.matrix(J(A))
    x0 = rv(rng, (n,), cp) if rng.random() < .4 else np.zeros(n, dtype=A.dtype)
    B, bop = np.eye(n), None
    if kind == "basis":
        B = np.linalg.qr(rv(rng, (n, n)))[0]
        bop = lop.matrix(J(B))
        b = A @ (B @ x) + .05 * rv(rng, (m,))
    if kind == "nd":
        s = (2, ri(rng, 2, 6))
        n = s[0] * s[1]
        d = rng.uniform(.3, 1.2, n) * rng.choice([-1., 1.], n)
        A = np.diag(d)
        D = J(d.reshape(s))
        op = lop.Operator(times=lambda z: D * z, trans=lambda z: D * z, shape=(s, s))
        b = (d * (rv(rng, (n,)) * (rng.random(n) < .5)) + .05 * rv(rng, (n,))).reshape(s)
        x0 = np.zeros(s)
        B = np.eye(n)
    return A, op, b, x0, B, bop


def thresholds(rng, name, scale):
    lam = scale * float(rng.uniform(.02, .3))
    if name == "soft":
        return (lambda i, x: geo.soft_threshold(x, lam)), (lambda i, x: soft(x, lam))
    if name == "decay":
        return (lambda i, x: geo.soft_threshold(x, lam * .7 ** i)), (lambda i, x: soft(x, lam * .7 ** i))
    if name == "hard":
        return (lambda i, x: geo.hard_threshold(x, lam * lam)), (lambda i, x: np.where(np.abs(x) > np.sqrt(2) * lam, x, 0))
    if name == "default":
        return None, (lambda i, x: soft(x, np.percentile(np.abs(x), 20)))


def ref_ista(A, b, x0, step, thr, B, T):
    x = x0.copy()
    out = [(x, b - A @ x)]
    for t in range(T):
        x = B @ thr(t, B.conj().T @ (x + step * (A.conj().T @ (b - A @ x))))
        out.append((x, b - A @ x))
    return out


def ref_fista(A, b, x0, step, thr, B, T):
    x = z = x0.copy()
    tk = 1.
    out = [(x, b - A @ z)]
    for t in range(T):
        xn = B @ thr(t, B.conj().T @ (z + step * (A.conj().T @ (b - A @ z))))
        tn = (1 + np.sqrt(1 + 4 * tk ** 2)) / 2
        z = xn + (tk - 1) / tn * (xn - x)
        x, tk = xn, tn
        out.append((x, b - A @ z))
    return out


PK = ["plain", "basis", "complex", "nd"]
TH = ["soft", "decay", "hard", "default"]
CFG = [(a, k, t) for t in TH for k in PK for a in ("ista", "fista")]


@group("C11", quick=4 * len(CFG), thorough=30 * len(CFG))
def iterates(ctx, i):
    rng = ctx.rng
    algo, kind, th = CFG[i % len(CFG)]
    A, op, b, x0, B, bop = problem(rng, kind)
    step = float(rng.uniform(.3, 1.)) / nrm(A, 2) ** 2
    jf, nf = thresholds(rng, th, max(1e-3, np.abs(b).max()))
    T = ri(rng, 1, 9)
    jit = rng.random() < .4
    f = getattr(sls, algo + ("_jit" if jit else ""))
    kw = {}
    if jf is not None:
        kw["threshold_func"] = jf
    args = (op, J(b), J(x0), step)
    if jit:      # static arguments are positional
        state = f(*args, jf or sls.default_threshold, bop or sls.identity_op, 0., 0., T)
    else:
        if bop is not None:
            kw["basis"] = bop
        state = f(*args, res_norm_rtol=0., x_norm_change_tol=0., max_iters=T, **kw)
    p = dict(algo=algo, kind=kind, threshold=th, T=T, jit=jit, n=A.shape[1])
    ref = (ref_ista if algo == "ista" else ref_fista)(A, b.ravel(), x0.ravel(), step, nf, B, T)
    it = int(state.iterations)
    x = np.asarray(state.x)
    ctx.ok(x.shape == x0.shape, "iterate-shape", **p)
    stalled = [t for t in range(1, T + 1) if nrm(ref[t][0] - ref[t - 1][0]) < 1e-13]
    if it < T:
        ctx.ok(bool(stalled) and it >= min(stalled), "no-early-stop", it=it, **p)
    else:
        ctx.ok(it == T, "iteration-budget", it=it, **p)
    if th == "hard":
        # a coefficient on the threshold makes the reference branch arbitrary
        xs, _ = ref[it]
    ctx.close(x.ravel(), ref[it][0], f"published-iterate:{algo}", tol=1e-7, scale=max(1., nrm(ref[it][0])), **p)
    ctx.close(np.asarray(state.r).ravel(), ref[it][1], f"residual:{algo}", tol=1e-7, scale=max(1., nrm(b)), **p)
    ctx.leq(abs(complex(state.r_norm_sqr) - nrm(np.asarray(state.r)) ** 2), 1e-9 * max(1., nrm(b) ** 2), "reported-energy", **p)
    ch = nrm(ref[it][0] - ref[it - 1][0])
    ctx.leq(abs(float(np.real(state.x_change_norm)) - ch), 1e-7 * max(1., nrm(x)), "reported-change", **p)
    ctx.nontrivial(b=b.ravel()[:2], **p)


def lasso_gap(A, b, x, lam):
    g = A.conj().T @ (A @ x - b)
    on = np.abs(x) > 1e-9
    e = np.where(on, np.abs(g + lam * x / np.maximum(np.abs(x), 1e-300)), np.maximum(np.abs(g) - lam, 0))
    return e.max() if len(e) else 0.


@group("C11", quick=24, thorough=240)
def optimum(ctx, i):
    """With the soft threshold the fixed point is the LASSO optimum; the objective never increases for ISTA and
    obeys the accelerated rate for FISTA."""
    rng = ctx.rng
    algo = ["ista", "fista"][i % 2]
    kind = ["plain", "basis", "complex"][(i // 2) % 3]
    A, op, b, x0, B, bop = problem(rng, kind)
    m, n = A.shape
    if m < n:       # keep the problem strongly convex enough to converge quickly
        A = np.vstack([A, .6 * np.eye(n)])
        b = np.concatenate([b, .1 * rv(rng, (n,))])
        op = lop.matrix(J(A))
    s = np.linalg.svd(A)[1]
    if s.min() / s.max() < .12:
        A = A + 0
        U, sv, V = np.linalg.svd(A, full_matrices=False)
        A = (U * np.maximum(sv, .2 * sv.max())) @ V
        op = lop.matrix(J(A))
    L = nrm(A, 2) ** 2
    step = float(rng.uniform(.6, 1.)) / L
    lam = float(rng.uniform(.02, .4)) * np.abs(A.conj().T @ b).max()
    thr = lambda k, v: geo.soft_threshold(v, lam * step)
    kw = dict(threshold_func=thr)
    if bop is not None:
        kw["basis"] = bop
    f = getattr(sls, algo)
    AB = A @ B
    F = lambda a: .5 * nrm(AB @ a - b) ** 2 + lam * np.abs(a).sum()
    st = f(op, J(b), J(x0), step, res_norm_rtol=0., x_norm_change_tol=1e-13, max_iters=4000, **kw)
    x = np.asarray(st.x)
    a = B.conj().T @ x
    p = dict(algo=algo, kind=kind, shape=str(A.shape))
    ctx.leq(lasso_gap(AB, b, np.where(np.abs(a) < 1e-9, 0, a), lam), 1e-5 * np.abs(AB.conj().T @ b).max(), "kkt:" + algo, it=int(st.iterations), **p)
    Fs = F(a)
    a0 = B.conj().T @ x0
    prev = F(a0)
    for t in (1, 2, 3, 5, 8, 13):
        s2 = f(op, J(b), J(x0), step, res_norm_rtol=0., x_norm_change_tol=0., max_iters=t, **kw)
        v = F(B.conj().T @ np.asarray(s2.x))
        if algo == "ista":
            ctx.leq(v, prev, "ista-objective-monotone", slack=1e-9 * max(1, prev), t=t, **p)
            ctx.leq(v - Fs, nrm(a0 - a) ** 2 / (2 * step * t), "ista-rate", slack=1e-8 * max(1, Fs), t=t, **p)
        else:
            ctx.leq(v - Fs, 2 * nrm(a0 - a) ** 2 / (step * (t + 1) ** 2), "fista-rate", slack=1e-8 * max(1, Fs), t=t, **p)
        prev = v
    ctx.nontrivial(lam=lam, **p)


@group("C11", quick=24, thorough=200)
def stopping(ctx, i):
    """Stops exactly when the residual or the change tolerance is met (observed through budgets)."""
    rng = ctx.rng
    algo = ["ista", "fista"][i % 2]
    which = ["res", "change"][(i // 2) % 2]
    A, op, b, x0, B, bop = problem(rng, ["plain", "complex"][(i // 4) % 2])
    step = .9 / nrm(A, 2) ** 2
    lam = .002 * np.abs(b).max()
    jf, nf = (lambda k, v: geo.soft_threshold(v, lam)), (lambda k, v: soft(v, lam))
    T = 60
    ref = (ref_ista if algo == "ista" else ref_fista)(A, b, x0, step, nf, B, T)
    rs = [nrm(r) for _, r in ref]
    ch = [np.inf] + [nrm(ref[t][0] - ref[t - 1][0]) for t in range(1, T + 1)]
    k = ri(rng, 1, 25)
    if which == "res":
        rtol, ctol = rs[k] * (1 + 1e-7) / nrm(b), 0.
    else:
        rtol, ctol = 0., ch[k] * (1 + 1e-7)
    want = next((t for t in range(0, T + 1) if rs[t] <= rtol * nrm(b) or ch[t] <= ctol), T)
    st = getattr(sls, algo)(op, J(b), J(x0), step, threshold_func=jf, res_norm_rtol=rtol, x_norm_change_tol=ctol, max_iters=T)
    it = int(st.iterations)
    p = dict(algo=algo, which=which, k=k, n=A.shape[1])
    near = any(abs(rs[t] - rtol * nrm(b)) < 1e-9 * nrm(b) for t in range(T + 1) if t != k) if which == "res" else False
    if near or want < k and min(abs(rs[want] / (rtol * nrm(b) + 1e-300) - 1), 1) < 1e-6 and which == "res" and want != k:
        ctx.skip("reference on the threshold")
    ctx.ok(it == want, "stops-exactly-when-due:" + which, it=it, want=want, **p)
    ctx.close(st.x, ref[want][0], "result-at-stop", tol=1e-6, scale=max(1., nrm(ref[want][0])), **p)
    ctx.nontrivial(want=want, **p)


@group("C11", quick=10, thorough=60)
def defaults(ctx, i):
    """Default tolerances and budget: ends with a 1e-3 relative residual, a stationary iterate, or 1000 iterations."""
    rng = ctx.rng
    algo = ["ista", "fista"][i % 2]
    A, op, b, x0, B, bop = problem(rng, "plain")
    if i % 4 < 2:
        b = A @ rv(rng, (A.shape[1],))
    step = .9 / nrm(A, 2) ** 2
    lam = 1e-3 * np.abs(b).max() * step
    st = getattr(sls, algo)(op, J(b), J(x0), step, threshold_func=lambda k, v: geo.soft_threshold(v, lam))
    it = int(st.iterations)
    r2 = float(np.real(st.r_norm_sqr))
    ctx.ok(it == 1000 or r2 <= 1e-6 * nrm(b) ** 2 * (1 + 1e-9) or float(st.x_change_norm) <= 1e-10, "default-stop", it=it, r2=r2, algo=algo)
    ctx.ok(it <= 1000, "default-budget", it=it)
    ctx.finite(st.x, "finite", algo=algo)
    ctx.nontrivial(algo=algo, it=it, n=A.shape[1])
