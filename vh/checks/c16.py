"""C16: l1 solvers (interior point, ADMM, reweighted least squares) return what their problem statement asks for."""
import numpy as np
import jax
import jax.numpy as jnp
from scipy.optimize import linprog
import cr.sparse.lop as lop
from cr.sparse.cvx import l1ls, focuss
from cr.sparse.cvx.adm import yall1
from vh.core import group
from vh.lopcat import rv, ri
from vh.checks.c15 import fista

J = jnp.asarray
nrm = np.linalg.norm


# ---------------------------------------------------------------- references
def lasso_ref(A, b, lam, w=None, nonneg=False):
    """min .5|Ax-b|^2 + lam <w,|x|>, with polishing on the active set -> x, obj, certified gap"""
    n = A.shape[1]
    w = np.ones(n) if w is None else w
    L = nrm(A, 2) ** 2

    def prox(v, s):
        t = s * lam * w
        return np.maximum(v - t, 0) if nonneg else np.sign(v) * np.maximum(np.abs(v) - t, 0)
    x = fista(lambda v: A.T @ (A @ v - b), prox, L, np.zeros(n), T=4000)

    def obj(v):
        return .5 * nrm(A @ v - b) ** 2 + lam * np.sum(w * np.abs(v))
    S = np.abs(x) > 1e-9 * max(1e-300, np.abs(x).max())
    if S.any():
        As = A[:, S]
        s = np.sign(x[S])
        try:
            xs = np.linalg.lstsq(As.T @ As, As.T @ b - lam * w[S] * s, rcond=None)[0]
            p = np.zeros(n)
            p[S] = xs
            if np.all(np.sign(xs) == s) and obj(p) <= obj(x):
                x = p
        except np.linalg.LinAlgError:
            pass
    r = b - A @ x
    c = A.T @ r
    viol = np.max((c if nonneg else np.abs(c)) - lam * w)
    pos = w > 0
    sc = np.max(np.where(pos, (c if nonneg else np.abs(c)) / np.where(pos, lam * w, 1), 0))
    th = r / max(1., sc)
    d = .5 * nrm(b) ** 2 - .5 * nrm(b - th) ** 2
    o = obj(x)
    return x, o, (o - d if pos.all() else max(0., viol) * np.abs(x).sum() + 1e-12 * o)


def bp_ref(A, b, w, nonneg=False):
    m, n = A.shape
    if nonneg:
        r = linprog(w, A_eq=A, b_eq=b, bounds=(0, None), method="highs")
        return None if r.status else (r.x, r.fun)
    r = linprog(np.r_[w, w], A_eq=np.hstack([A, -A]), b_eq=b, bounds=(0, None), method="highs")
    return None if r.status else (r.x[:n] - r.x[n:], r.fun)


def bpic_ref(A, b, w, delta, nonneg=False):
    """min <w,|x|> st |Ax-b| <= delta by bisection on the multiplier; objective value"""
    lo, hi = 0., np.max((A.T @ b if nonneg else np.abs(A.T @ b)) / w)
    if hi <= 0:
        return None
    x = None
    for _ in range(45):
        mid = .5 * (lo + hi)
        x, _, _ = lasso_ref(A, b, mid, w, nonneg)
        if nrm(A @ x - b) > delta:
            hi = mid
        else:
            lo = mid
    # one interpolation between the two neighbours is unnecessary: objective is continuous in the multiplier
    return float(np.sum(w * np.abs(x)))


def tight(rng, m, n, kind):
    """operators with orthonormal rows"""
    if kind == "qr":
        return np.linalg.qr(rv(rng, (n, m)))[0].T
    if kind == "perm":
        A = np.zeros((m, n))
        A[np.arange(m), rng.permutation(n)[:m]] = rng.choice([-1., 1.], m)
        return A
    if kind == "dct":
        k = np.arange(n)
        D = np.cos(np.pi * (k[None] + .5) * k[:, None] / n) * np.sqrt(2 / n)
        D[0] /= np.sqrt(2)
        return D[rng.permutation(n)[:m]]
    Q = np.linalg.qr(rv(rng, (m, m)))[0]
    c = np.sqrt(.5)
    return np.hstack([c * Q, c * np.eye(m)])


def sparse_x(rng, n, k, pos=False):
    x = np.zeros(n)
    k = max(1, min(k, n))
    x[rng.permutation(n)[:k]] = rng.choice([-1., 1.], k) * rng.uniform(.5, 2, k)
    return np.abs(x) if pos else x


# ---------------------------------------------------------------- l1ls
@group("C16", quick=16, thorough=200)
def l1ls_cases(ctx, i):
    rng = ctx.rng
    m, n = ri(rng, 3, 20), ri(rng, 3, 30)
    A = rv(rng, (m, n)) / np.sqrt(m)
    if rng.random() < .4:
        A = A * 10. ** rng.uniform(-1, 1, n)          # badly scaled columns
    elif rng.random() < .5:
        A = A / nrm(A, axis=0)
    b = A @ sparse_x(rng, n, ri(rng, 1, max(1, m // 3))) * 10. ** rng.uniform(-1, 2) + .02 * rv(rng, (m,))
    lmax = 2 * np.abs(A.T @ b).max()
    frac = float(rng.choice([.003, .03, .1, .4, .9, 1.0001, 3.]))
    lam = frac * lmax
    tol = float(rng.choice([1e-1, 1e-3, 1e-6]))
    kw = {}
    warm = "default"
    if rng.random() < .5:
        warm = str(rng.choice(["random", "over", "opposite"]))
        x0 = rv(rng, (n,))
        if warm == "over":
            x0 = 4 * np.linalg.pinv(A) @ b
        elif warm == "opposite":
            x0 = -np.linalg.pinv(A) @ b
        kw = dict(x0=J(x0), u0=J(np.abs(x0) + rng.uniform(.05, 2, n)))
    _, ref, gap = lasso_ref(A, b, lam / 2)
    ref, gap = 2 * ref, 2 * gap
    if gap > 1e-8 * max(ref, 1e-300):
        ctx.skip("reference not certified")
    jitted = bool(rng.integers(2)) and not kw
    f = l1ls.solve_jit if jitted else l1ls.solve
    p = dict(m=m, n=n, frac=frac, ask=tol, warm=warm, jitted=jitted)
    sol = f(lop.matrix(J(A)), J(b), lam, tol=tol, **kw)
    ctx.nontrivial(**p)
    x = np.asarray(sol.x)
    if not ctx.finite(x, "l1ls:finite", **p):
        return
    ctx.close(sol.r, b - A @ x, "l1ls:residual", scale=nrm(b), **p)
    o = nrm(A @ x - b) ** 2 + lam * np.abs(x).sum()
    ctx.leq(o, ref * (1 + tol), "l1ls:objective-within-relative-gap", slack=1e-8 * ref, iters=int(sol.iterations), **p)
    if frac > 1 and not kw:
        ctx.leq(np.abs(x).max(), 0, "l1ls:zero-solution", slack=1e-9 * nrm(b), **p)
    ctx.leq(int(sol.iterations), 399, "l1ls:converges", **p)
    b1 = ri(rng, 1, 8)
    s2 = l1ls.solve(lop.matrix(J(A)), J(b), lam, tol=1e-12, max_iters=b1, **kw)
    ctx.leq(int(s2.iterations), b1, "l1ls:budget", **p)
    ctx.close(s2.r, b - A @ np.asarray(s2.x), "l1ls:budget-residual", scale=nrm(b) + nrm(A @ np.asarray(s2.x)), **p)


# ---------------------------------------------------------------- yall1
MODES = ["bp", "l1l2", "l1l2con"]


def yall1_case(ctx, i, wrap=True):
    rng = ctx.rng
    mode = MODES[i % 3]
    kind = ["qr", "dct", "frame", "qr", "perm"][(i // 3) % 5]
    n = ri(rng, 6, 28)
    m = ri(rng, 3, n - 1)
    A = tight(rng, m, n, kind)
    m, n = A.shape
    nonneg = bool(rng.random() < .3)
    xt = sparse_x(rng, n, ri(rng, 1, max(1, m // 4)), nonneg) * 10. ** rng.uniform(-2, 2)
    b = A @ xt
    if mode != "bp":
        b = b + .05 * nrm(b) / np.sqrt(m) * rv(rng, (m,))
    w = np.ones(n)
    kw = {}
    if rng.random() < .4:
        w = rng.uniform(.4, 2.5, n)
        kw["weights"] = J(w)
    elif rng.random() < .2:
        w = np.full(n, 1.7)
        kw["weights"] = 1.7
    Wm = None
    if rng.random() < .3:
        Wm = np.linalg.qr(rv(rng, (n, n)))[0]
        # x = W alpha, alpha sparse: sense W alpha with A W^T
        kw["W"] = lop.matrix(J(Wm))
    Aop = A if Wm is None else A @ Wm.T
    if rng.random() < .3:
        kw["gamma"] = float(rng.choice([.7, 1.3, 1.6]))
    start = "default"
    if rng.random() < .3:
        start = "x0"
        kw["x0"] = J(xt + .05 * np.abs(xt).max() * np.abs(rv(rng, (n,))))
    if rng.random() < .2:
        kw["z0"] = J(np.clip(rv(rng, (n,)), -w, w))
    cmax = np.max((A.T @ b if nonneg else np.abs(A.T @ b)) / w)
    par = None
    if mode == "l1l2":
        par = float(rng.choice([.02, .1, .4, .9, 1.05, 2.]))
        if cmax <= 0:
            ctx.skip("zero solution boundary")
        rho = par * cmax
        kw["rho"] = rho
        xr, ref, gap = lasso_ref(A, b, rho, w, nonneg)
        ref, gap = ref / rho, gap / rho
    elif mode == "l1l2con":
        par = float(rng.choice([.05, .2, .6, .95, 1.05]))
        delta = par * nrm(b)
        if nonneg and par < 1:
            # distance of b to the cone must be clearly inside
            from scipy.optimize import nnls
            if nnls(A, b)[1] > .8 * delta:
                ctx.skip("nearly infeasible constraint")
        kw["delta"] = delta
        ref = 0. if par > 1 else bpic_ref(A, b, w, delta, nonneg)
        gap = 0.
        if ref is None:
            ctx.skip("degenerate")
    else:
        rr = bp_ref(A, b, w, nonneg)
        if rr is None:
            ctx.skip("LP failed")
        ref, gap = rr[1], 0.
    if gap > 1e-7 * max(ref, 1e-300):
        ctx.skip("reference not certified")
    tol = float(rng.choice([1e-7, 1e-9]))
    jitted = bool(rng.integers(2))
    p = dict(mode=mode, kind=kind, m=m, n=n, nonneg=nonneg, weights="weights" in kw, basis=Wm is not None,
             gamma=kw.get("gamma", 1.), start=start, par=par, jitted=jitted)
    sol = yall1.solve(lop.matrix(J(Aop)), J(b), nonneg=nonneg, tolerance=tol, max_iters=60000, jit=jitted, **kw)
    ctx.nontrivial(**p)
    if start == "x0" and nrm(b) and (par is None or par < 1):
        s0 = yall1.solve(lop.matrix(J(Aop)), J(b), nonneg=nonneg, max_iters=0, jit=jitted, **kw)
        x0 = np.asarray(kw["x0"])
        x0 = x0 if Wm is None else Wm @ x0
        ctx.close(s0.x, x0, f"yall1:{mode}:start", scale=nrm(x0), **p)
    if not ctx.finite(sol.x, "yall1:finite", **p):
        return
    sc = max(nrm(b), nrm(xt))
    T = 2e-3

    def measure(sol):
        xs = np.asarray(sol.x)
        x = xs if Wm is None else Wm.T @ xs
        r = b - Aop @ xs
        l1 = np.sum(w * np.abs(x))
        if mode == "bp":
            q = [("feasible", nrm(r), 0., T * nrm(b)), ("objective", l1, ref, T * ref)]
        elif mode == "l1l2":
            q = [("objective", l1 + .5 / rho * nrm(r) ** 2, ref, T * ref)]
            if par > 1:
                q.append(("zero-solution", np.abs(x).max(), 0., 1e-5 * sc))
        else:
            q = [("feasible", nrm(r), delta, T * delta),
                 ("objective", l1, ref, T * max(ref, 1e-3 * np.abs(w * xt).sum()))]
        return x, r, q, all(g <= h + e for _, g, h, e in q)
    x, r, q, good = measure(sol)
    for k, (tl, gm) in enumerate(((1e-12, 1.), (1e-12, 1.4), (1e-11, .8), (1e-12, 1.1), (1e-12, .9), (1e-12, 1.55))):
        if good:
            break
        # the solver may also stop on a plateau of x (documented); a plateau depends on the step parameters
        k2 = dict(kw, gamma=gm, x0=J(xt * (1 + .1 * k) + .02 * k * np.abs(xt).max() * rv(rng, (n,))))
        sol = yall1.solve(lop.matrix(J(Aop)), J(b), nonneg=nonneg, tolerance=tl, max_iters=60000, jit=jitted, **k2)
        x, r, q, good = measure(sol)
        ctx.count("yall1:plateau")
    p["iters"] = int(sol.iterations)
    ctx.close(sol.r, r, f"yall1:{mode}:residual", tol=1e-4, scale=sc, **p)
    if nonneg:
        ctx.leq(-x.min(), 0, f"yall1:{mode}:nonneg", slack=1e-12 * sc, **p)
    for name, g, h, e in q:
        ctx.leq(g, h, f"yall1:{mode}:{name}", slack=e if good else 25 * e, **p)


@group("C16", quick=42, thorough=400)
def yall1_cases(ctx, i):
    yall1_case(ctx, i)


# ---------------------------------------------------------------- FOCUSS
@group("C16", quick=8, thorough=80)
def focuss_cases(ctx, i):
    rng = ctx.rng
    n = ri(rng, 6, 24)
    m = ri(rng, 3, n - 1)
    A = rv(rng, (m, n)) / np.sqrt(m)
    x = sparse_x(rng, n, ri(rng, 1, max(1, m // 4)))
    b = A @ x
    pw = float(rng.choice([.3, .5, .8, 1.])) if rng.random() < .7 else 1.
    T = ri(rng, 1, 6)
    p = dict(m=m, n=n, pw=pw, T=T)
    kw = {} if pw == 1. and rng.random() < .5 else {"p": pw}
    sol = focuss.matrix_solve_noiseless(J(A), J(b), max_iters=T, **kw)
    z = np.ones(n)
    zj = J(np.ones(n))
    cond = 1.
    for _ in range(T):
        W2 = np.abs(z) ** (2 * pw)
        G = (A * W2) @ A.T
        cond = max(cond, np.linalg.cond(G))
        if cond > 1e10:
            ctx.skip("iteration ill conditioned")
        z = W2 * (A.T @ np.linalg.solve(G, b))
        zj = focuss.step_noiseless(J(A), J(b), zj, **kw)
    if cond > 1e10:
        ctx.skip("iteration ill conditioned")
    ctx.nontrivial(**p)
    tol = 1e-14 * cond + 1e-9
    ctx.ok(int(sol.iterations) == T, "focuss:iterations", got=int(sol.iterations), **p)
    ctx.close(sol.x, z, "focuss:reweighted-least-squares", tol=tol, scale=nrm(z), **p)
    ctx.close(zj, z, "focuss:step", tol=tol, scale=nrm(z), **p)
    ctx.close(A @ np.asarray(sol.x), b, "focuss:feasible", tol=tol, scale=nrm(b), **p)
    ctx.close(sol.r, b - A @ np.asarray(sol.x), "focuss:residual", tol=tol, scale=nrm(b), **p)
    ctx.close(sol.r_norm_sqr, nrm(np.asarray(sol.r)) ** 2, "focuss:residual-norm", tol=1e-6, scale=1e-12 + nrm(b) ** 2, **p)


# ---------------------------------------------------------------- dense sampling through one compiled solver
@group("C16", quick=3, thorough=30)
def l1ls_dense(ctx, i):
    rng = ctx.rng
    m, n = [(8, 20), (14, 9), (10, 10)][i % 3]
    tol = 1e-4
    f = jax.jit(lambda A, b, l, x0, u0: l1ls.solve_from(lop.matrix(A), b, l, x0, u0, tol=tol))
    slow = tot = 0
    for _ in range(40):
        A = rv(rng, (m, n)) / np.sqrt(m)
        if rng.random() < .3:
            A[:, rng.permutation(n)[:2]] *= 8.
        if rng.random() < .3:
            A[:, 1] = A[:, 0] * rng.choice([1., -1., .5])      # dependent columns
        b = A @ sparse_x(rng, n, ri(rng, 1, 4)) * 10. ** rng.uniform(-2, 2)
        lam = float(rng.choice([.002, .02, .1, .5, .95])) * 2 * np.abs(A.T @ b).max()
        _, ref, gap = lasso_ref(A, b, lam / 2)
        ref, gap = 2 * ref, 2 * gap
        if gap > 1e-7 * ref:
            continue
        x0 = np.zeros(n) if rng.random() < .5 else rv(rng, (n,)) * nrm(b)
        u0 = np.abs(x0) + rng.uniform(.05, 2, n)
        sol = f(A, b, lam, x0, u0)
        x = np.asarray(sol.x)
        tot += 1
        p = dict(m=m, n=n, lam=lam, warm=bool(np.any(x0)))
        ctx.nontrivial(b=b[:3], **p)
        if not ctx.finite(x, "l1ls-dense:finite", **p):
            continue
        ctx.close(sol.r, b - A @ x, "l1ls-dense:residual", scale=nrm(b), **p)
        if int(sol.iterations) >= 400:      # budget exhausted: nothing is promised
            slow += 1
            continue
        o = nrm(A @ x - b) ** 2 + lam * np.abs(x).sum()
        ctx.leq(o, ref * (1 + tol), "l1ls-dense:objective", slack=1e-7 * ref, iters=int(sol.iterations), **p)
    ctx.leq(slow, .25 * tot, "l1ls-dense:converges", slow=slow, tot=tot)


@group("C16", quick=6, thorough=60)
def yall1_dense(ctx, i):
    """the stage functions bp_setup / solve_* / finalize, on scaled data, as the wrapper composes them"""
    rng = ctx.rng
    mode = MODES[i % 3]
    nonneg = bool((i // 3) % 2)
    m, n = 8, 18
    tol = 1e-10
    if mode == "bp":
        f = jax.jit(lambda A, b, x0, z0, w, q: yall1.solve_bp(lop.matrix(A), b, x0, z0, w, nonneg, 1., tol, 40000))
    elif mode == "l1l2":
        f = jax.jit(lambda A, b, x0, z0, w, q: yall1.solve_l1_l2(lop.matrix(A), b, x0, z0, w, nonneg, q, 1., tol, 40000))
    else:
        f = jax.jit(lambda A, b, x0, z0, w, q: yall1.solve_l1_l2con(lop.matrix(A), b, x0, z0, w, nonneg, q, 1., tol, 40000))
    slow = tot = wslow = wtot = 0
    for _ in range(20 if mode == "l1l2con" else 40):
        A = tight(rng, m, n, str(rng.choice(["qr", "dct"])))
        xt = sparse_x(rng, n, ri(rng, 1, 3), nonneg) * 10. ** rng.uniform(-2, 2)
        b = A @ xt
        if mode != "bp":
            b = b + .03 * nrm(b) / np.sqrt(m) * rv(rng, (m,))
        w = np.exp(rng.uniform(-1.2, 1.2, n)) if rng.random() < .6 else np.ones(n)
        bs, x0, z0, w1, bmax, nt, ntr = yall1.bp_setup(lop.matrix(J(A)), J(b))
        p = dict(mode=mode, nonneg=nonneg, b=b[:3], weighted=bool(np.any(w != 1)))
        ctx.close(bmax, np.abs(b).max(), "yall1-stages:scale", **p)
        ctx.close(bs, b / np.abs(b).max(), "yall1-stages:data", **p)
        cmax = np.max((A.T @ b if nonneg else np.abs(A.T @ b)) / w)
        q = 0.
        if mode == "bp":
            rr = bp_ref(A, b, w, nonneg)
            if rr is None:
                continue
            ref = rr[1]
        elif mode == "l1l2":
            q = float(rng.choice([.02, .1, .4, .9])) * cmax
            _, ref, gap = lasso_ref(A, b, q, w, nonneg)
            if gap > 1e-7 * ref:
                continue
            ref = ref / q
        else:
            q = float(rng.choice([.05, .2, .5])) * nrm(b)
            if nonneg:
                from scipy.optimize import nnls
                if nnls(A, b)[1] > .8 * q:
                    continue
            ref = bpic_ref(A, b, w, q, nonneg)
        st = f(A, bs, x0, z0, J(w), q / bmax)
        sol = yall1.finalize(st, bmax, nt, ntr, nonneg=nonneg)
        ctx.nontrivial(**p)
        x = np.asarray(sol.x)
        if not ctx.finite(x, f"yall1-stages:{mode}:finite", **p):
            continue
        r = b - A @ x
        l1 = np.sum(w * np.abs(x))
        T = 2e-3
        ctx.close(sol.r, r, f"yall1-stages:{mode}:residual", tol=1e-4, scale=nrm(b), **p)
        if nonneg:
            ctx.leq(-x.min(), 0, f"yall1-stages:{mode}:nonneg", slack=1e-12 * nrm(b), **p)
        if mode == "bp":
            good = nrm(r) <= T * nrm(b) and l1 <= ref * (1 + T)
        elif mode == "l1l2":
            good = l1 + .5 / q * nrm(r) ** 2 <= ref * (1 + T)
        else:
            good = nrm(r) <= q * (1 + T) and l1 <= ref * (1 + T)
        ctx.count(f"yall1-stages:{mode}:optimality")
        tot += 1
        slow += not good
        if p["weighted"]:
            wtot += 1
            wslow += not good
    # a run may stop early on a plateau of x (documented); most do not
    ctx.leq(slow, .2 * tot, f"yall1-stages:{mode}:optimal", slow=slow, tot=tot)
    ctx.leq(wslow, .25 * wtot + 1, f"yall1-stages:{mode}:optimal-weighted", slow=wslow, tot=wtot)
