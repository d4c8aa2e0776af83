"""C15: first-order solvers (accelerated composite minimisation, spectral projected gradient) reach the optimum."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.opt as opt
import cr.sparse.fom as fom
from cr.sparse.opt import spg
from vh.core import group
from vh.lopcat import rv, ri
from vh.checks.c12 import ref_l1
from vh.checks.c13 import soft, owl_ref

J = jnp.asarray
nrm = np.linalg.norm


def system(rng, m=None, n=None):
    m = m or ri(rng, 4, 18)
    n = n or ri(rng, 3, 20)
    A = rv(rng, (m, n)) / np.sqrt(m) * float(rng.choice([.3, 1., 5.]))
    x = rv(rng, (n,)) * (rng.random(n) < .35)
    return A, A @ x + .05 * rv(rng, (m,))


def fista(grad, prox, L, x0, T=6000):
    x = z = x0
    t = 1.
    for _ in range(T):
        xn = prox(z - grad(z) / L, 1 / L)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        if np.dot(z - xn, xn - x) > 0:      # restart
            tn = 1.
            z = xn
        else:
            z = xn + (t - 1) / tn * (xn - x)
        if nrm(xn - x) < 1e-15 * max(1, nrm(x)) and nrm(xn - prox(xn - grad(xn) / L, 1 / L)) < 1e-14:
            x = xn
            break
        x, t = xn, tn
    return x


KINDS = ["l1rls", "l1rls_jit", "lasso", "lasso_jit", "owl1rls", "owl1rls_jit", "huber-l1pos", "quad-box", "quad-zero", "quad-l2"]


@group("C15", quick=5 * len(KINDS), thorough=60 * len(KINDS))
def composite(ctx, i):
    rng = ctx.rng
    kind = KINDS[i % len(KINDS)]
    A, b = system(rng)
    m, n = A.shape
    if kind == "quad-zero":       # unregularised: keep it well conditioned
        n = min(n, 8)
        m = n + 6
        A, b = system(rng, m, n)
        U, s, V = np.linalg.svd(A, full_matrices=False)
        A = (U * np.linspace(s.max(), .4 * s.max(), n)) @ V
    Ab = np.abs(A.T @ b).max()
    L = nrm(A, 2) ** 2
    x0 = rv(rng, (n,)) if rng.random() < .5 else np.zeros(n)
    T = lop.matrix(J(A))
    opts = fom.FomOptions() if rng.random() < .6 else fom.FomOptions(L0=float(rng.choice([.1, 1., 10.]) * L), tol=1e-9, max_iters=3000)
    f = lambda x: .5 * nrm(A @ x - b) ** 2
    grad = lambda x: A.T @ (A @ x - b)
    feas = lambda x: 0.
    if kind.startswith("l1rls"):
        lam = float(rng.uniform(.03, .6)) * Ab
        sol = (fom.l1rls_jit if "jit" in kind else fom.l1rls)(T, J(b), lam, J(x0), opts)
        h, prox = (lambda x: lam * np.abs(x).sum()), (lambda x, t: soft(x, t * lam))
    elif kind.startswith("lasso"):
        xl = np.linalg.lstsq(A, b, rcond=None)[0]
        tau = float(rng.uniform(.1, .9)) * np.abs(xl).sum()
        sol = (fom.lasso_jit if "jit" in kind else fom.lasso)(T, J(b), tau, J(x0), opts)
        h, prox = (lambda x: 0.), (lambda x, t: ref_l1(x, tau))
        feas = lambda x: np.abs(x).sum() - tau
    elif kind.startswith("owl1rls"):
        w = np.sort(rng.uniform(.02, .5, n))[::-1].copy() * Ab
        sol = (fom.owl1rls_jit if "jit" in kind else fom.owl1rls)(T, J(b), J(w), J(x0), opts)
        h, prox = (lambda x: np.sum(w * np.sort(np.abs(x))[::-1])), (lambda x, t: owl_ref(x, t * w))
    elif kind == "huber-l1pos":
        tau, q = 1., .1 * float(np.abs(A).sum(0).max())
        sol = fom.fom(opt.smooth_huber(tau), opt.prox_l1_pos(q), T, J(-b), J(x0), opts)
        f = lambda x: np.sum(np.where(np.abs(A @ x - b) <= tau, (A @ x - b) ** 2 / 2 / tau, np.abs(A @ x - b) - tau / 2))
        grad = lambda x: A.T @ ((A @ x - b) / np.maximum(tau, np.abs(A @ x - b)))
        h, prox = (lambda x: q * np.sum(x) if np.all(x >= -1e-9) else np.inf), (lambda x, t: np.maximum(0, x - t * q))
        feas = lambda x: -x.min()
    elif kind == "quad-box":
        u = float(rng.uniform(.1, 1.))
        bx = opt.build_from_ind_proj(opt.indicator_box(J(-u), J(u)), opt.proj_box(J(-u), J(u)))
        sol = fom.fom(opt.smooth_quad_matrix(), bx, T, J(-b), J(x0), opts)
        h, prox = (lambda x: 0.), (lambda x, t: np.clip(x, -u, u))
        feas = lambda x: np.abs(x).max() - u
    elif kind == "quad-zero":
        sol = fom.fom(opt.smooth_quad_matrix(), opt.prox_zero(), T, J(-b), J(x0), opts)
        h, prox = (lambda x: 0.), (lambda x, t: x)
    else:
        q = float(rng.uniform(.05, .5)) * nrm(A.T @ b)
        sol = fom.fom(opt.smooth_quad_matrix(), opt.prox_l2(q), T, J(-b), J(x0), opts)
        h = lambda x: q * nrm(x)
        prox = lambda x, t: x * max(0., 1 - t * q / max(nrm(x), 1e-300))
    x = np.asarray(sol.x)
    p = dict(kind=kind, shape=str(A.shape), it=int(sol.iterations))
    ctx.finite(x, "finite:" + kind, **p)
    ctx.ok(x.shape == (n,), "shape:" + kind, **p)
    # reference optimum by an independent solver
    xs = fista(grad, prox, L, np.zeros(n))
    Fs = f(xs) + h(xs)
    ctx.leq(feas(x), 0, "feasible:" + kind, slack=1e-6 * max(1, nrm(x)), **p)
    F0 = f(np.zeros(n)) + h(np.zeros(n))
    Fx = f(x) + h(np.maximum(x, 0) if kind == "huber-l1pos" else x)
    ctx.leq(Fx - Fs, 2e-4 * F0, "reaches-optimum:" + kind, Fx=Fx, Fs=Fs, **p)
    ctx.leq(Fs - Fx, 1e-6 * F0, "oracle-sane", **p)
    ctx.leq(nrm(x - prox(x - grad(x) / L, 1 / L)), 3e-3 * max(nrm(xs), 1.), "stationary:" + kind, **p)
    ctx.ok(1 <= int(sol.iterations) <= opts.max_iters, "budget:" + kind, **p)
    # reported fields describe the returned point
    ctx.close(sol.A_x, A @ x, "reported-image", tol=1e-9, scale=max(1e-9, nrm(A, 2) * max(nrm(x), 1.)), **p)
    if kind != "huber-l1pos":
        ctx.leq(abs(float(sol.f_x) - f(x)), 1e-8 * max(F0, 1e-9), "reported-smooth-value", **p)
        ctx.close(sol.g_Ax, A @ x - b, "reported-gradient", tol=1e-8, scale=max(nrm(b), nrm(A @ x)), **p)
    ctx.leq(abs(float(sol.norm_x) - nrm(x)), 1e-8 * max(1, nrm(x)), "reported-norm", **p)
    ctx.ok(int(sol.iterations) == opts.max_iters or float(sol.norm_dx) < opts.tol * max(nrm(x), 1) * (1 + 1e-9), "stops-for-a-reason", **p)
    ctx.nontrivial(b=b[:2], **p)


@group("C15", quick=12, thorough=100)
def budgets(ctx, i):
    """Budget k performs k iterations; the objective obeys an accelerated rate along the way."""
    rng = ctx.rng
    A, b = system(rng)
    n = A.shape[1]
    L = nrm(A, 2) ** 2
    lam = .1 * np.abs(A.T @ b).max()
    F = lambda x: .5 * nrm(A @ x - b) ** 2 + lam * np.abs(x).sum()
    xs = fista(lambda x: A.T @ (A @ x - b), lambda x, t: soft(x, t * lam), L, np.zeros(n))
    T = lop.matrix(J(A))
    for k in (1, 2, 5, 17, 40):
        sol = fom.l1rls(T, J(b), lam, J(np.zeros(n)), fom.FomOptions(L0=2 * L, alpha=1., max_iters=k, tol=0.))
        ctx.ok(int(sol.iterations) == k, "iterations-equal-budget", k=k, it=int(sol.iterations))
        ctx.leq(F(np.asarray(sol.x)) - F(xs), 4 * 2 * L * nrm(xs) ** 2 / (k + 1) ** 2, "accelerated-rate", slack=1e-9 * F(np.zeros(n)), k=k)
    ctx.nontrivial(n=n, b=b[:2])


@group("C15", quick=8, thorough=40)
def affine(ctx, i):
    """The affine map helper: forward, adjoint and affine modes for every combination of matrix and offset."""
    rng = ctx.rng
    m, n = ri(rng, 2, 6), ri(rng, 2, 6)
    A = rv(rng, (m, n), i % 4 == 3)
    b = rv(rng, (m,))
    x, y = rv(rng, (n,)), rv(rng, (m,))
    k = i % 4
    if k in (0, 3):
        f = fom.matrix_affine_func(J(A), J(b))
        ctx.close(f(J(x), 2), A @ x + b, "affine")
    elif k == 1:
        f = fom.matrix_affine_func(J(A))
        ctx.close(f(J(x), 2), A @ x, "affine")
    else:
        f = fom.matrix_affine_func(b=J(b))
        ctx.close(f(J(y), 2), y + b, "affine")
        A, x = np.eye(m), y
    ctx.close(f(J(x)), A @ x, "affine-linear-part")
    ctx.close(f(J(y), 1), A.conj().T @ y, "affine-adjoint")
    ctx.nontrivial(k=k, m=m, n=n)


@group("C15", quick=12, thorough=80)
def dual_smoothing(ctx, i):
    """Smoothed conjugates: value is minus the supremum defining them, gradient is its derivative."""
    rng = ctx.rng
    n = ri(rng, 1, 6)
    mu = float(rng.choice([.3, 1., 4.]))
    c = rv(rng, (n,)) * .5
    q = float(rng.choice([.5, 1., 2.]))
    k = i % 3
    h, f, prox = [(opt.prox_l1(q), lambda z: q * np.abs(z).sum(), lambda z, t: soft(z, t * q)),
                  (opt.prox_l2(q), lambda z: q * nrm(z), lambda z, t: z * max(0., 1 - t * q / max(nrm(z), 1e-300))),
                  (opt.prox_l1_ball(q), lambda z: 0., lambda z, t: ref_l1(z, q))][k]
    d = fom.smooth_dual(h, mu, J(c))
    x = rv(rng, (n,)) * 3
    pz = prox(c + mu * x, mu)
    val = lambda z: x @ z - f(z) - nrm(z - c) ** 2 / (2 * mu)
    ctx.leq(abs(float(d.func(J(x))) + val(pz)), 1e-9 * (1 + abs(val(pz))), "dual-value", k=k)
    for _ in range(5):
        z = pz + rv(rng, (n,)) * .3
        if k == 2:
            z = ref_l1(z, q)
        ctx.leq(val(z), -float(d.func(J(x))), "dual-supremum", slack=1e-9 * (1 + abs(val(pz))), k=k)
    ctx.close(d.grad(J(x)), -pz, "dual-gradient", tol=1e-9, scale=1 + nrm(pz), k=k)
    g, v = d.grad_val(J(x))
    ctx.close(g, -pz, "dual-joint-gradient", tol=1e-9, scale=1 + nrm(pz), k=k)
    ctx.leq(abs(float(v) + val(pz)), 1e-9 * (1 + abs(val(pz))), "dual-joint-value", k=k)
    ctx.nontrivial(k=k, n=n, mu=mu, x=x)


# ------------------------------------------------------------------ spectral projected gradient
SETS = ["box", "l1", "l2", "free", "affine", "nonneg"]


def pset(rng, name, n):
    if name == "box":
        u = float(rng.uniform(.2, 1.5))
        return opt.proj_box(J(-u), J(u)), lambda x: np.clip(x, -u, u)
    if name == "nonneg":
        return opt.proj_box(l=J(0.)), lambda x: np.maximum(x, 0)
    if name == "l1":
        q = float(rng.uniform(.3, 3))
        return opt.proj_l1_ball(q), lambda x: ref_l1(x, q)
    if name == "l2":
        q = float(rng.uniform(.3, 2))
        return opt.proj_l2_ball(q), lambda x: x * min(1., q / max(nrm(x), 1e-300))
    if name == "free":
        return opt.proj_identity(), lambda x: x
    B = rv(rng, (max(1, n // 2), n))
    c = rv(rng, (B.shape[0],))
    P = np.linalg.pinv(B)
    return opt.proj_affine(J(B), J(c)), lambda x: x - P @ (B @ x - c)


@group("C15", quick=6 * len(SETS), thorough=60 * len(SETS))
def projected_gradient(ctx, i):
    rng = ctx.rng
    name = SETS[i % len(SETS)]
    n = ri(rng, 2, 10)
    A = rv(rng, (n + 4, n))
    U, s, V = np.linalg.svd(A, full_matrices=False)
    A = (U * np.linspace(2., .6, n)) @ V * float(rng.choice([.5, 1., 3.]))
    b = rv(rng, (n + 4,)) * float(rng.choice([1., 3.]))
    proj, pr = pset(rng, name, n)
    x0 = rv(rng, (n,)) * float(rng.choice([0., 1., 5.]))
    f = opt.smooth_quad_error(J(A), J(b))
    jit = (i // len(SETS)) % 3 == 2
    if jit:
        st = spg.solve_from_jit(f, proj, J(x0)) if rng.random() < .5 else \
            spg.solve_from_jit(f, proj, J(x0), spg.SPGOptions(max_iters=300, memory=5))
    else:
        st = spg.solve_from(f, proj, J(x0))
    x = np.asarray(st.x)
    grad = lambda z: A.T @ (A @ z - b)
    F = lambda z: .5 * nrm(A @ z - b) ** 2
    L = nrm(A, 2) ** 2
    xs = fista(grad, lambda z, t: pr(z), L, pr(np.zeros(n)))
    p = dict(set=name, n=n, jit=jit, it=int(st.iterations))
    ctx.leq(nrm(x - pr(x)), 0, "spg-feasible:" + name, slack=1e-6 * max(1, nrm(x)), **p)
    ctx.leq(F(x) - F(xs), 1e-4 * max(F(xs), F(pr(x0)) - F(xs), 1e-3), "spg-optimal:" + name, F=F(x), Fs=F(xs), **p)
    ctx.close(x, xs, "spg-solution:" + name, tol=5e-3, scale=max(1., nrm(xs)), **p)
    ctx.close(st.g, grad(x), "spg-reported-gradient", tol=1e-8, scale=max(1., nrm(A.T @ b)), **p)
    ctx.leq(abs(float(st.f_past[0]) - F(x)), 1e-8 * max(1., F(x)), "spg-reported-value", **p)
    it = int(st.iterations)
    ctx.ok(1 <= it <= 1000, "spg-budget", **p)
    ctx.ok(int(st.f_calls) >= it and int(st.g_calls) == it + 1, "spg-call-counts", f=int(st.f_calls), g=int(st.g_calls), **p)
    ctx.nontrivial(b=b[:2], **p)


@group("C15", quick=8, thorough=60)
def spg_budget(ctx, i):
    """Budgets are respected and all iterates are feasible."""
    rng = ctx.rng
    name = SETS[i % len(SETS)]
    n = ri(rng, 3, 8)
    A, b = rv(rng, (n + 2, n)), rv(rng, (n + 2,)) * 3
    proj, pr = pset(rng, name, n)
    f = opt.smooth_quad_error(J(A), J(b))
    x0 = rv(rng, (n,)) * 4
    F = lambda z: .5 * nrm(A @ z - b) ** 2
    hist = []
    for k in (1, 2, 3, 6):
        st = spg.solve_from(f, proj, J(x0), spg.SPGOptions(max_iters=k, optim_tol=0., progress_tol=0.))
        x = np.asarray(st.x)
        ctx.ok(int(st.iterations) <= k, "spg-max-iters", it=int(st.iterations), k=k)
        ctx.leq(nrm(x - pr(x)), 0, "spg-iterate-feasible", slack=1e-7 * max(1, nrm(x)), set=name, k=k)
        hist.append(F(x))
    ctx.leq(hist[-1], hist[0], "spg-descends", slack=1e-9 * max(1, hist[0]))
    ctx.nontrivial(set=name, n=n, b=b[:2])


@group("C15", quick=40, thorough=200)
def spg_linesearch(ctx, i):
    """Non-quadratic objectives force backtracking: every accepted value stays below the largest of the last M."""
    rng = ctx.rng
    n = ri(rng, 1, 4)
    A = rv(rng, (n + 2, n))
    b = rv(rng, (n + 2,)) * .5
    pw = [4, 6][i % 2]
    f = opt.smooth_build(lambda x: jnp.sum((J(A) @ x - J(b)) ** pw)) if i % 3 else \
        opt.smooth_build2(lambda x: jnp.sum((J(A) @ x - J(b)) ** pw), lambda x: pw * J(A).T @ (J(A) @ x - J(b)) ** (pw - 1))
    F = lambda x: np.sum((A @ x - b) ** pw)
    M = [1, 1, 3][i % 3]
    g = float(rng.choice([1e-4, .2, .45]))
    x0 = rv(rng, (n,)) * float(rng.choice([.5, 2.]))
    u = float(rng.choice([.5, 50.]))
    proj = opt.proj_box(J(-u), J(u))
    run = jax.jit(lambda k: spg.solve_from(f, proj, J(x0), spg.SPGOptions(max_iters=k, memory=M, suff_dec=g, optim_tol=1e-7)))
    hist, calls, prev = [], [], None
    for k in range(1, 26):
        st = run(k)
        if int(st.iterations) != k:
            break
        x = np.asarray(st.x)
        if prev is not None:
            xp = prev
            ref = max(hist[-M:])
            dec = g * float(np.dot(pw * A.T @ (A @ xp - b) ** (pw - 1), x - xp))     # gamma * <g, alpha d>
            ctx.leq(F(x), ref + dec, "spg-sufficient-decrease", slack=1e-9 * (abs(ref) + abs(dec)), k=k, M=M)
            back = int(st.f_calls) - calls[-1]
            ctx.ok(back >= 1, "spg-counts-evaluations", back=back)
            if back > 1:
                ctx.count("observed-backtracking")
        hist.append(F(x))
        calls.append(int(st.f_calls))
        ctx.leq(np.abs(x).max(), u, "spg-iterate-feasible", slack=1e-9 * u)
        prev = x
    ctx.nontrivial(n=n, M=M, pw=pw, g=g, iters=len(hist), x0=x0)


@group("C15", quick=2, thorough=2)
def known_probes(ctx, i):
    rng = np.random.default_rng(0)
    A = rv(rng, (3, 6))
    xt = np.zeros(6)
    xt[1] = 2.
    b = A @ xt
    try:
        if i == 0:
            x = fom.bp_scd(lop.matrix(J(A)), J(b), .1, J(np.zeros(6)), J(np.zeros(3))).x
            good = x.shape == (6,) and nrm(A @ np.asarray(x) - b) < 1e-2 * nrm(b)
        else:
            x = fom.dantzig_scd(lop.matrix(J(A)), J(b), .1, .1, J(np.zeros(6)), J(np.zeros(6))).x
            good = x.shape == (6,) and np.abs(A.T @ (b - A @ np.asarray(x))).max() < .11
    except TypeError:
        good = False
    if i == 0:
        ctx.known("bp-scd", good, "the smoothed conic dual solver fails on every basis pursuit problem with a non-square operator")
    else:
        ctx.known("dantzig-scd", good, "the smoothed conic dual solver returns NaN for Dantzig selector problems")
