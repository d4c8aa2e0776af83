"""C17: SPGL1 solves LASSO, BPIC (l1 with a residual bound) and basis pursuit, real and complex."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
from cr.sparse.cvx import spgl1 as S
from vh.core import group
from vh.lopcat import rv, ri
from vh.checks.c12 import ref_l1
from vh.checks.c15 import fista
from vh.checks.c16 import bpic_ref, bp_ref

J = jnp.asarray
nrm = np.linalg.norm


def cproj(v, q):
    a = np.abs(v)
    if a.sum() <= q:
        return v
    s = ref_l1(a, q)
    return v * (s / np.where(a > 0, a, 1))


def problem(rng, m, n, cplx=False, k=3, noise=.02):
    A = rv(rng, (m, n)) + (1j * rv(rng, (m, n)) if cplx else 0)
    A = A / np.sqrt(m)
    if rng.random() < .3:
        A = A * 3. ** rng.uniform(-1, 1, n)
    x = np.zeros(n, dtype=A.dtype)
    S_ = rng.permutation(n)[:min(k, n)]
    x[S_] = rng.choice([-1., 1.], len(S_)) * rng.uniform(.5, 2, len(S_))
    if cplx:
        x = x * np.exp(2j * np.pi * rng.random(n))
    x = x * 10. ** rng.uniform(-.5, 2)
    b = A @ x
    e = rv(rng, (m,)) + (1j * rv(rng, (m,)) if cplx else 0)
    return A, x, b + noise * nrm(b) / np.sqrt(m) * e


def lasso_opt(A, b, tau):
    L = nrm(A, 2) ** 2
    g = lambda v: A.conj().T @ (A @ v - b)
    x = np.zeros(A.shape[1], dtype=A.dtype)
    z, t = x, 1.
    for _ in range(4000):
        xn = cproj(z - g(z) / L, tau)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        if np.real(np.vdot(z - xn, xn - x)) > 0:
            tn, z = 1., xn
        else:
            z = xn + (t - 1) / tn * (xn - x)
        if nrm(xn - x) <= 1e-15 * max(1e-300, nrm(xn)):
            x = xn
            break
        x, t = xn, tn
    return x, .5 * nrm(A @ x - b) ** 2


def consistent(ctx, tag, A, b, st, p):
    x = np.asarray(st.x)
    sc = nrm(b) + nrm(A @ x)
    r = b - A @ x
    ctx.close(st.r, r, f"{tag}:residual", scale=sc, **p)
    ctx.close(st.g, -A.conj().T @ r, f"{tag}:gradient", scale=nrm(A, 2) * sc, **p)
    return x, r


def dual_bound(A, b, r, sigma=0.):
    """lower bound on the l1 norm of every x with |A x - b| <= sigma, from the dual point along r"""
    d = np.abs(A.conj().T @ r).max()
    if d == 0:
        return 0.
    y = r / d
    return float(np.real(np.vdot(y, b)) - sigma * nrm(y))


def bp_admm(A, b, iters=6000):
    """l1 norm of the (complex) basis pursuit solution by ADMM"""
    P = np.linalg.pinv(A)
    x0 = P @ b
    z, u = x0.copy(), np.zeros_like(x0)
    t = .2 * np.abs(x0).max()
    for _ in range(iters):
        v = z - u
        x = v - P @ (A @ v) + x0
        w = x + u
        a = np.abs(w)
        zn = w * (np.maximum(a - t, 0) / np.where(a > 0, a, 1))
        u = w - zn
        if nrm(zn - z) < 1e-11 * nrm(x0) and nrm(x - zn) < 1e-9 * nrm(x0):
            z = zn
            break
        z = zn
    return float(np.abs(x).sum())


def metrics(ctx, tag, A, b, x, r, st, p, tau, sigma=None):
    """the reported values, gap and errors are those of the returned point"""
    f = .5 * nrm(r) ** 2
    fm = max(1., f)
    gap = abs(np.vdot(r, r - b) + tau * np.abs(A.conj().T @ r).max()) / fm
    acc = 1e-9 * (nrm(b) ** 2 + tau * nrm(A, 2) * nrm(b)) / fm
    ctx.close(st.f_past[0], f, f"{tag}:objective-value", scale=nrm(b) ** 2, **p)
    ctx.leq(0., float(np.min(np.asarray(st.f_past))), f"{tag}:past-values-nonnegative", **p)
    ctx.leq(0., float(st.alpha_next), f"{tag}:step-nonnegative", **p)
    if sigma is None:
        ctx.leq(abs(float(st.r_gap) - gap), acc, f"{tag}:reported-gap", gap=gap, **p)
        ctx.ok(int(st.n_times) == int(st.iterations) + int(st.n_ls_iters), f"{tag}:forward-count-relation",
               nt=int(st.n_times), ls=int(st.n_ls_iters), **p)
        ctx.ok(int(st.n_trans) == int(st.iterations), f"{tag}:adjoint-count-relation", ntr=int(st.n_trans), **p)
    else:
        rn = nrm(r)
        ctx.leq(abs(float(st.r_res_error) - abs(rn - sigma) / max(1., rn)), 1e-9 * (nrm(b) + sigma),
                f"{tag}:reported-residual-error", **p)
        ctx.leq(abs(float(st.r_f_error) - abs(f - sigma ** 2 / 2) / fm), 1e-9 * (nrm(b) ** 2 + sigma ** 2),
                f"{tag}:reported-value-error", **p)
        if not bool(st.tau_changed):
            ctx.leq(abs(float(st.r_gap) - gap), acc, f"{tag}:reported-gap", gap=gap, **p)
        if int(st.iterations) > 1:              # a start that already meets the bound is returned as it is
            ctx.leq(np.abs(x).sum(), tau, f"{tag}:within-reported-ball", slack=1e-9 * max(tau, 1e-300),
                    **p)
        ctx.leq(int(st.n_newton), int(st.iterations), f"{tag}:newton-count", **p)


def lasso_verdict(ctx, tag, A, b, tau, st, opts, p, ref=None):
    if not ctx.finite(st.x, f"{tag}:finite", **p):
        return
    x, r = consistent(ctx, tag, A, b, st, p)
    ctx.close(st.r_norm, nrm(r), f"{tag}:residual-norm", scale=nrm(b), **p)
    ctx.leq(np.abs(x).sum(), tau, f"{tag}:within-ball", slack=1e-9 * max(tau, 1e-300), **p)
    metrics(ctx, tag, A, b, x, r, st, p, tau)
    if int(st.iterations) >= opts.max_iters:
        ctx.count(f"{tag}:budget-exhausted")
        return False
    f = .5 * nrm(r) ** 2
    ref = lasso_opt(A, b, tau)[1] if ref is None else ref
    lim = max(opts.opt_tol * max(1., f), .5 * (opts.opt_tol * nrm(b)) ** 2)
    ctx.leq(f - ref, lim, f"{tag}:objective-within-gap", slack=1e-9 * max(f, ref) + 1e-12, ref=ref,
            iters=int(st.iterations), **p)
    return True


@group("C17", quick=6, thorough=60)
def lasso_dense(ctx, i):
    rng = ctx.rng
    m, n = [(8, 20), (15, 10), (10, 10)][i % 3]
    cplx = bool((i // 3) % 2)
    o = S.SPGL1Options(max_iters=2000, opt_tol=[1e-4, 1e-6][int(rng.integers(2))])
    f = jax.jit(lambda A, b, t, x0: S.solve_lasso_from(lop.matrix(A), b, t, x0, options=o))
    done = tot = 0
    for _ in range(25):
        A, xt, b = problem(rng, m, n, cplx)
        tau = float(rng.choice([.05, .3, .7, 1., 1.3])) * np.abs(xt).sum()
        x0 = np.zeros(n, A.dtype) if rng.random() < .5 else (xt + nrm(xt) * rv(rng, (n,))).astype(A.dtype)
        st = f(A, b, tau, x0)
        p = dict(m=m, n=n, cplx=cplx, tau=tau, start=bool(np.any(x0)), b0=b[0].real)
        ctx.nontrivial(**p)
        tot += 1
        done += bool(lasso_verdict(ctx, "lasso", A, b, tau, st, o, p))
    ctx.leq(.8 * tot, done, "lasso:converges", done=done, tot=tot)


def bpic_verdict(ctx, tag, A, b, sigma, st, o, p):
    """-> l1 norm if converged"""
    if not ctx.finite(st.x, f"{tag}:finite", **p):
        return None
    x, r = consistent(ctx, tag, A, b, st, p)
    ctx.close(st.r_norm, nrm(r), f"{tag}:residual-norm", scale=nrm(b), **p)
    metrics(ctx, tag, A, b, x, r, st, p, float(st.tau), sigma)
    if int(st.iterations) >= o.max_iters:
        ctx.count(f"{tag}:budget-exhausted")
        return None
    rn = nrm(r)
    ctx.leq(rn, max(sigma + o.opt_tol * max(1., rn), o.bp_tol * nrm(b)), f"{tag}:residual-bound",
            slack=1e-9 * nrm(b), iters=int(st.iterations), sigma=sigma, **p)
    return np.abs(x).sum()


@group("C17", quick=6, thorough=48)
def bpic_dense(ctx, i):
    rng = ctx.rng
    m, n = [(8, 20), (12, 16), (15, 10)][i % 3]
    o = S.SPGL1Options(max_iters=3000)
    f = jax.jit(lambda A, b, s, x0: S.solve_bpic_from(lop.matrix(A), b, s, x0, options=o))
    far = tot = 0
    for _ in range(14):
        A, xt, b = problem(rng, m, n)
        b = b * (5 / min(5., nrm(b)))           # the stopping rule is absolute below 1
        frac = float(rng.choice([.1, .3, .6, .9, 1.2]))
        sigma = frac * nrm(b)
        if m > n:
            sigma = max(sigma, 1.3 * nrm(b - A @ np.linalg.lstsq(A, b, rcond=None)[0]))
        x0 = np.zeros(n)
        if rng.random() < .3:
            x0 = .2 * xt / max(1., nrm(xt))
        st = f(A, b, sigma, x0)
        p = dict(m=m, n=n, frac=frac, b0=b[0], start=bool(np.any(x0)))
        ctx.nontrivial(**p)
        l1 = bpic_verdict(ctx, "bpic", A, b, sigma, st, o, p)
        if l1 is None:
            continue
        tot += 1
        if sigma >= nrm(b):
            if not np.any(x0):
                ctx.leq(l1, 0., "bpic:zero-solution", slack=1e-9 * nrm(b), **p)
            continue
        ref = bpic_ref(A, b, np.ones(n), sigma)
        ctx.count("bpic:optimality")
        far += l1 > ref * 1.01 + 1e-9
    ctx.leq(8, tot, "bpic:converges", tot=tot)
    # stopping below the bound with a slightly larger norm is allowed, but is the exception
    ctx.leq(far, .3 * tot, "bpic:objective", far=far, tot=tot)


@group("C17", quick=4, thorough=40)
def bp_dense(ctx, i):
    rng = ctx.rng
    m, n = [(8, 20), (12, 16)][i % 2]
    o = S.SPGL1Options(max_iters=6000)
    f = jax.jit(lambda A, b: S.solve_bp(lop.matrix(A), b, options=o))
    far = tot = 0
    for _ in range(14):
        A, xt, b = problem(rng, m, n, k=2, noise=0 if rng.random() < .5 else .02)
        b = b * (5 / min(5., nrm(b)))
        st = f(A, b)
        p = dict(m=m, n=n, b0=b[0])
        ctx.nontrivial(**p)
        l1 = bpic_verdict(ctx, "bp", A, b, 0., st, o, p)
        if l1 is None:
            continue
        rr = bp_ref(A, b, np.ones(n))
        if rr is None:
            continue
        tot += 1
        ctx.count("bp:optimality")
        far += l1 > rr[1] * 1.02
    ctx.leq(8, tot, "bp:converges", tot=tot)
    ctx.leq(far, .3 * tot, "bp:objective", far=far, tot=tot)


@group("C17", quick=4, thorough=40)
def complex_dense(ctx, i):
    """complex operators (data complex or real): the returned residual certifies the norm; without a residual bound
    an independent solver gives the reference"""
    rng = ctx.rng
    m, n = [(8, 20), (12, 16)][i % 2]
    bp = bool((i // 2) % 2)
    o = S.SPGL1Options(max_iters=6000)
    f = jax.jit(lambda A, b, s: S.solve_bp(lop.matrix(A), b, options=o) if bp
                else S.solve_bpic(lop.matrix(A), b, s, options=o))
    far = tot = 0
    for _ in range(14):
        A, xt, b = problem(rng, m, n, cplx=True, k=2, noise=.02)
        if i % 4 >= 2:
            b = np.real(b)
        b = b * (5 / min(5., nrm(b)))
        sigma = 0. if bp else float(rng.choice([.1, .3, .6])) * nrm(b)
        st = f(A, b, sigma)
        p = dict(m=m, n=n, bp=bp, b0=b[0].real, cplx_b=np.iscomplexobj(b))
        ctx.nontrivial(**p)
        l1 = bpic_verdict(ctx, "complex", A, b, sigma, st, o, p)
        if l1 is None:
            continue
        lb = bp_admm(A, b) if bp else dual_bound(A, b, b - A @ np.asarray(st.x), sigma)
        tot += 1
        ctx.count("complex:optimality")
        far += l1 > lb * 1.03 + 1e-9
    ctx.leq(8, tot, "complex:converges", tot=tot)
    ctx.leq(far, .3 * tot, "complex:objective", far=far, tot=tot)


class Counter:
    def __init__(self, A):
        self.nt = self.ntr = 0
        A = J(A)

        def times(x):
            jax.debug.callback(self.inc)
            return A @ x

        def trans(y):
            jax.debug.callback(self.inc_tr)
            return A.conj().T @ y
        self.op = lop.Operator(times=times, trans=trans, shape=A.shape, real=not np.iscomplexobj(A))

    def inc(self):
        self.nt += 1

    def inc_tr(self):
        self.ntr += 1


APIS = ["lasso", "lasso_from", "lasso_jit", "bpic", "bpic_from", "bpic_jit", "bpic_from_jit", "bp", "bp_jit"]


@group("C17", quick=3 * len(APIS), thorough=24 * len(APIS))
def api(ctx, i):
    """every entry point, real and complex, default and user options, with operation counting and tracing"""
    rng = ctx.rng
    name = APIS[i % len(APIS)]
    kind = (i // len(APIS)) % 3             # real; complex; complex operator with real data
    cplx = kind > 0
    A, xt, b = problem(rng, 10, 18, cplx, noise=0.)
    if kind == 2:
        b = np.real(b)
    b = b * (5 / min(5., nrm(b)))
    xt = np.linalg.pinv(A) @ b
    o = S.SPGL1Options(max_iters=int(rng.choice([400, 3000])), opt_tol=1e-5)
    C = Counter(A)
    trace = []
    kw = dict(options=o) if rng.random() < .7 else {}
    jitted = name.endswith("jit")
    if not jitted:
        kw["tracker"] = lambda st, more=None: trace.append((int(st.iterations), np.array(st.x), bool(more)))
    eff = kw.get("options", S.SPGL1Options())
    op = C.op if not jitted else lop.matrix(J(A))
    if name.startswith("lasso"):
        q = .5 * np.abs(xt).sum()
        arg = (op, J(b), q)
    elif name.startswith("bpic"):
        q = .3 * nrm(b)
        arg = (op, J(b), q)
    else:
        q = 0.
        arg = (op, J(b))
    if "from" in name:
        arg = arg + (J(np.zeros(18, A.dtype)),)
    st = getattr(S, "solve_" + name)(*arg, **kw)
    jax.effects_barrier()
    p = dict(name=name, kind=kind, opts="options" in kw)
    ctx.nontrivial(**p)
    if name.startswith("lasso"):
        lasso_verdict(ctx, "api-lasso", A, b, q, st, eff, p)
    else:
        bpic_verdict(ctx, "api-bpic", A, b, q, st, eff, p)
    ctx.leq(int(st.iterations), eff.max_iters, "api:budget", **p)
    if not jitted:
        ctx.ok(int(st.n_times) == C.nt, "api:forward-count", reported=int(st.n_times), actual=C.nt, **p)
        ctx.ok(int(st.n_trans) == C.ntr, "api:adjoint-count", reported=int(st.n_trans), actual=C.ntr, **p)
        its = [t[0] for t in trace]
        ctx.ok(its == list(range(its[0], its[0] + len(its))), "api:trace-order", its=its[:20], **p)
        ctx.ok(its and its[-1] == int(st.iterations) and not trace[-1][2] and all(t[2] for t in trace[:-1]),
               "api:trace-ends-with-result", last=its[-1:], **p)
        ctx.close(trace[-1][1], st.x, "api:trace-final-state", scale=nrm(xt), **p)
        if name.startswith("lasso"):
            for _, x, _ in trace:
                ctx.leq(np.abs(x).sum(), q, "api:iterates-within-ball", slack=1e-9 * q, **p)
    x = rv(rng, (18,)).astype(A.dtype)
    r, g, f = S.compute_rgf(lop.matrix(J(A)), J(b), J(x))
    rr = b - A @ x
    ctx.close(r, rr, "compute_rgf:residual", **p)
    ctx.close(g, -A.conj().T @ rr, "compute_rgf:gradient", **p)
    ctx.close(f, .5 * nrm(rr) ** 2, "compute_rgf:value", **p)
