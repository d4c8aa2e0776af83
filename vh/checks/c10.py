"""C10: least-squares and SPD solvers (LSQR, CG, PCG) solve the system they were given and report truthfully."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.sls as sls
from cr.sparse.opt import cg, pcg
from vh.core import group
from vh.lopcat import rv, ri

J = jnp.asarray
nrm = np.linalg.norm


def mat(rng, m, n, cond=5., cp=False):
    k = min(m, n)
    U = np.linalg.qr(rv(rng, (m, k), cp))[0]
    V = np.linalg.qr(rv(rng, (n, k), cp))[0]
    s = np.geomspace(1., cond, k) * float(rng.choice([.2, 1., 6.]))
    return (U * s) @ V.conj().T


LS = ["plain", "jit", "warm", "damped", "under", "complex", "nd", "inconsistent", "inconsistent-damped"]


@group("C10", quick=4 * len(LS), thorough=50 * len(LS))
def lsqr(ctx, i):
    rng = ctx.rng
    kind = LS[i % len(LS)]
    cp = kind == "complex"
    n = ri(rng, 1, 10)
    m = n + ri(rng, 0, 10) if kind != "under" else max(1, n - ri(rng, 0, 5))
    A = mat(rng, m, n, float(rng.uniform(1, 8)), cp)
    x_true = rv(rng, (n,), cp)
    b = A @ x_true
    if kind.startswith("inconsistent") or rng.random() < .3:
        b = b + rv(rng, (m,), cp)
    damp = float(rng.uniform(.1, 2)) if "damped" in kind else 0.
    x0 = rv(rng, (n,), cp) if kind == "warm" else np.zeros(n, dtype=b.dtype)
    T = lop.matrix(J(A))
    shape_b = b.shape
    if kind == "nd":
        # an operator on 2-D arrays: restrict/scale through a reshaped matrix
        n2 = 2 * ri(rng, 1, 4)
        A = mat(rng, n2 + 4, n2, 4.)
        b = A @ rv(rng, (n2,)) + .3 * rv(rng, (n2 + 4,))
        x0 = np.zeros((2, n2 // 2))
        base = lop.matrix(J(A))
        T = lop.Operator(times=lambda x: base.times(x.reshape(-1)), trans=lambda y: base.trans(y).reshape(2, n2 // 2),
                         shape=((n2 + 4,), (2, n2 // 2)))
        n = n2
    # the budget is generous: LSQR terminates finitely in exact arithmetic
    iters = 6 * n + 20
    f = sls.lsqr if kind not in ("jit", "plain") or rng.random() < .3 else sls.lsqr_jit
    T = lop.jit(T) if f is sls.lsqr_jit else T
    sol = f(T, J(b), J(x0), damp=damp, atol=1e-12, btol=1e-12, max_iters=iters) if f is sls.lsqr else \
        f(T, J(b), J(x0), damp, 1e-12, 1e-12, 100000000., iters)
    x = np.asarray(sol.x)
    p = dict(kind=kind, m=m, n=n, damp=damp)
    ctx.ok(x.shape == x0.shape, "solution-shape", **p)
    xv, x0v = x.ravel(), x0.ravel()
    r0 = b - A @ x0v
    Ad = np.vstack([A, damp * np.eye(A.shape[1])]) if damp else A
    rd = np.concatenate([r0, np.zeros(A.shape[1])]) if damp else r0
    d = np.linalg.lstsq(Ad, rd, rcond=None)[0]
    ctx.close(xv, x0v + d, "least-squares-solution:" + kind, tol=1e-6, scale=max(nrm(d), nrm(x0v), 1e-6), **p)
    res = b - A @ xv
    ctx.leq(nrm(Ad.conj().T @ (rd - Ad @ (xv - x0v))), 1e-6 * nrm(A, 2) * max(nrm(r0), 1e-6), "normal-equations", **p)
    full = nrm(rd - Ad @ (xv - x0v))
    ctx.leq(abs(float(np.real(sol.r_norm)) - full), 1e-5 * max(nrm(r0), 1e-6), "reported-residual-norm", got=sol.r_norm, want=full, **p)
    ctx.leq(abs(float(np.real(sol.x_norm)) - nrm(xv - x0v)), 1e-5 * max(nrm(xv - x0v), 1e-6), "reported-solution-norm", **p)
    ctx.leq(abs(float(np.real(sol.atr_norm))), 1e-5 * nrm(A, 2) * max(nrm(r0), 1e-6), "reported-atr-norm", **p)
    k = int(sol.iterations)
    ctx.ok(0 <= k <= iters, "iteration-budget", k=k, **p)
    ctx.ok(int(sol.n_times) == k + 1 and int(sol.n_trans) == k + 1, "operator-applications-counted", k=k, nt=int(sol.n_times), **p)
    if k >= min(n, m) and not damp:
        fro = np.sqrt(float(np.real(sol.A_norm)) ** 2)
        ctx.ok(fro > 0, "norm-estimate-positive", **p)
    ctx.nontrivial(x=x_true, **p)


@group("C10", quick=14, thorough=120)
def lsqr_iterates(ctx, i):
    """Iterate t minimises the residual over the t-th Krylov space: budgets are exact, residuals fall, counts match."""
    rng = ctx.rng
    cp = i % 4 == 3
    n = ri(rng, 3, 7)
    m = n + ri(rng, 0, 5)
    A = mat(rng, m, n, 6., cp)
    b = rv(rng, (m,), cp)
    T = lop.matrix(J(A))
    pr = nrm(b)
    K = []
    v = A.conj().T @ b
    for t in range(0, n + 1):
        sol = sls.lsqr(T, J(b), J(np.zeros(n, dtype=b.dtype)), atol=0., btol=0., max_iters=t)
        x = np.asarray(sol.x)
        if t > 0:
            K.append(v / nrm(v))
            v = A.conj().T @ (A @ K[-1])
        if t == 0:
            want = np.zeros(n)
        else:
            Q = np.linalg.qr(np.stack(K, 1))[0]
            want = Q @ np.linalg.lstsq(A @ Q, b, rcond=None)[0]
        ctx.ok(int(sol.iterations) == t, "iterations-equal-budget", t=t, it=int(sol.iterations), n=n)
        ctx.close(x, want, "krylov-iterate", tol=1e-5, scale=nrm(b) / np.linalg.svd(A)[1].min(), t=t, n=n, cp=cp)
        rn = nrm(b - A @ x)
        ctx.leq(rn, pr, "residual-monotone", slack=1e-9 * pr, t=t)
        ctx.leq(abs(float(np.real(sol.r_norm)) - rn), 1e-6 * nrm(b), "residual-norm-per-iterate", t=t)
        if t > 0:
            ctx.leq(abs(float(np.real(sol.atr_norm)) - nrm(A.conj().T @ (b - A @ x))), 1e-6 * nrm(b) * nrm(A, 2), "atr-norm-per-iterate", t=t)
        pr = rn
        if t > 0:
            fro = nrm(A)
            cond = fro * nrm(np.linalg.pinv(A))
            ctx.leq(float(np.real(sol.A_norm)), fro, "norm-is-lower-estimate", slack=1e-6 * fro, t=t)
            ctx.leq(float(np.real(sol.A_cond)), cond, "condition-is-lower-estimate", slack=1e-5 * cond, t=t)
            if t == n and nrm(v) > 1e-6:
                ctx.leq(fro * (1 - 1e-4), float(np.real(sol.A_norm)), "norm-estimate-complete", t=t)
                ctx.leq(cond * (1 - 1e-3), float(np.real(sol.A_cond)), "condition-estimate-complete", t=t)
            if not cp:
                # damping leaves the bidiagonalisation alone: same Krylov space, regularised objective, norms of [A; damp I]
                damp = float(rng.choice([.05, .5, 3.])) * nrm(A, 2)
                sd = sls.lsqr(T, J(b), J(np.zeros(n)), damp=damp, atol=0., btol=0., max_iters=t)
                if ctx.ok(int(sd.iterations) == t, "damped:iterations-equal-budget", t=t, it=int(sd.iterations)):
                    Ad = np.vstack([A, damp * np.eye(n)])
                    wd = Q @ np.linalg.lstsq(Ad @ Q, np.r_[b, np.zeros(n)], rcond=None)[0]
                    ctx.close(sd.x, wd, "damped:krylov-iterate", tol=1e-5, scale=nrm(b) / np.linalg.svd(A)[1].min(), t=t, n=n, damp=damp)
                    an = np.sqrt(float(sol.A_norm) ** 2 + t * damp ** 2)
                    ctx.leq(abs(float(sd.A_norm) - an), 1e-6 * an, "damped:norm-estimate", t=t, got=sd.A_norm, want=an, damp=damp)
                    cd = nrm(Ad) * nrm(np.linalg.pinv(Ad))
                    ctx.leq(float(sd.A_cond), cd, "damped:condition-is-lower-estimate", slack=1e-5 * cd, t=t, damp=damp)
                    rd = nrm(np.r_[b, np.zeros(n)] - Ad @ np.asarray(sd.x))
                    ctx.leq(abs(float(sd.r_norm) - rd), 1e-6 * nrm(b), "damped:residual-norm", t=t, got=sd.r_norm, want=rd, damp=damp)
    ctx.nontrivial(n=n, m=m, cp=cp, b=b[:2])


@group("C10", quick=8, thorough=50)
def lsqr_edges(ctx, i):
    """Exact start, zero right-hand side: nothing to do, no NaN."""
    rng = ctx.rng
    n = ri(rng, 2, 8)
    A = mat(rng, n + 3, n)
    x = rv(rng, (n,))
    T = lop.matrix(J(A))
    if i % 2:
        sol = sls.lsqr(T, J(np.zeros(n + 3)), J(np.zeros(n)))
        ctx.close(sol.x, np.zeros(n), "zero-rhs", scale=1.)
    else:
        sol = sls.lsqr(T, T.times(J(x)), J(x))
        ctx.close(sol.x, x, "exact-start", scale=1.)
    ctx.finite(sol.x, "finite-solution")
    ctx.ok(int(sol.iterations) <= 10, "no-needless-work")
    ctx.nontrivial(i=i % 2, n=n, x=x)


@group("C10", quick=16, thorough=120)
def lsqr_tolerance(ctx, i):
    """Stops when and only when a documented criterion is met (consistent systems: residual; inconsistent: A^H r)."""
    rng = ctx.rng
    n = ri(rng, 4, 10)
    m = n + ri(rng, 1, 6)
    A = mat(rng, m, n, 10.)
    b = A @ rv(rng, (n,))
    inc = i % 2
    if inc:
        b = b + rv(rng, (m,))
    tol = float(rng.choice([1e-2, 1e-4, 1e-6]))
    sol = sls.lsqr(lop.matrix(J(A)), J(b), J(np.zeros(n)), atol=tol, btol=tol, max_iters=10 * n)
    x = np.asarray(sol.x)
    r = b - A @ x
    k = int(sol.iterations)
    s1 = nrm(r) <= (tol * nrm(b) + tol * float(sol.A_norm) * float(sol.x_norm)) * (1 + 1e-6) + 1e-13 * nrm(b)
    s2 = nrm(A.T @ r) <= tol * nrm(A.T @ b) * (1 + 1e-6) + 1e-13 * nrm(b)
    ctx.ok(k == 10 * n or s1 or s2, "stopped-for-a-reason", k=k, tol=tol, r=nrm(r), atr=nrm(A.T @ r), inc=inc)
    ctx.ok(s1 or s2, "converged-within-budget", k=k, tol=tol, inc=inc)
    ctx.nontrivial(n=n, m=m, tol=tol, inc=inc, k=k)


# ------------------------------------------------------------------ CG / PCG
def spd(rng, n, cond):
    Q = np.linalg.qr(rv(rng, (n, n)))[0]
    return (Q * np.geomspace(1., cond, n)) @ Q.T * float(rng.choice([.1, 1., 10.]))


CGF = ["cg.solve", "cg.solve_jit", "cg.from", "cg.from_jit", "pcg.solve", "pcg.solve_jit", "pcg.from", "pcg.from_jit", "pcg.M"]


def run_cg(form, A, b, x0, iters, tol, M):
    n = len(b)
    op = lambda v: J(A) @ v
    if form.startswith("cg"):
        kw = dict(max_iters=iters, res_norm_rtol=tol)
        if "from" in form:
            return (cg.solve_from_jit if "jit" in form else cg.solve_from)(J(A), J(b), J(x0), **kw)
        return (cg.solve_jit if "jit" in form else cg.solve)(J(A), J(b), **kw)
    kw = dict(max_iters=iters, tol=tol)
    if form == "pcg.M":
        d = J(1. / np.diag(A)) if M is None else M
        kw["M"] = lambda r: d * r
    if "from" in form:
        return (pcg.solve_from_jit if "jit" in form else pcg.solve_from)(op, J(b), J(x0), **kw)
    return (pcg.solve_jit if "jit" in form else pcg.solve)(op, J(b), **kw)


@group("C10", quick=4 * len(CGF), thorough=50 * len(CGF))
def cg_solution(ctx, i):
    rng = ctx.rng
    form = CGF[i % len(CGF)]
    n = ri(rng, 1, 14)
    A = spd(rng, n, float(rng.uniform(1, 30)))
    b = rv(rng, (n,)) * float(rng.choice([1e-2, 1., 50.]))
    x0 = rv(rng, (n,)) * 3 if "from" in form else np.zeros(n)
    tol = float(rng.choice([1e-3, 1e-6, 1e-9]))
    iters = 3 * n + 10
    d = None if rng.random() < .4 else J(float(rng.choice([1e-4, 1., 1e3])) * rng.uniform(.5, 2, n) / np.diag(A))   # preconditioners of any norm
    sol = run_cg(form, A, b, x0, iters, tol, d)
    x = np.asarray(sol.x)
    r = b - A @ x
    p = dict(form=form, n=n, rtol=tol)
    ctx.leq(nrm(r), tol * nrm(b), "meets-requested-accuracy:" + form, slack=1e-9 * nrm(b) + 1e-8 * nrm(A, 2) * nrm(x0), **p)
    ctx.close(sol.r, r, "reported-residual", tol=1e-7, scale=nrm(b) + nrm(A, 2) * nrm(x0), **p)
    if form.startswith("cg"):
        ctx.leq(abs(float(sol.r_norm_sqr) - nrm(r) ** 2), 1e-6 * (nrm(b) ** 2 + (nrm(A, 2) * nrm(x0)) ** 2), "reported-energy", **p)
    xs = np.linalg.solve(A, b)
    if tol <= 1e-9:
        ctx.close(x, xs, "solution:" + form, tol=1e-6, scale=nrm(xs) * np.linalg.cond(A), **p)
    ctx.ok(0 <= int(sol.iterations) <= iters, "cg-budget", it=int(sol.iterations), **p)
    ctx.nontrivial(b=b[:2], **p)


@group("C10", quick=3 * len(CGF), thorough=30 * len(CGF))
def cg_iterates(ctx, i):
    """Iterate t is the A-norm-optimal point of the (preconditioned) Krylov space; the count is what was done."""
    rng = ctx.rng
    form = CGF[i % len(CGF)]
    n = ri(rng, 3, 7)
    A = spd(rng, n, 12.)
    b = rv(rng, (n,))
    x0 = rv(rng, (n,)) if "from" in form else np.zeros(n)
    d = rng.uniform(.5, 2, n) if form == "pcg.M" else np.ones(n)
    v = d * (b - A @ x0)
    K = []
    xs = np.linalg.solve(A, b)
    prev = np.inf
    for t in range(0, n):
        sol = run_cg(form, A, b, x0, t, 0., J(d))
        x = np.asarray(sol.x)
        if t:
            K.append(v / nrm(v))
            v = d * (A @ K[-1])
            Q = np.linalg.qr(np.stack(K, 1))[0]
            want = x0 + Q @ np.linalg.solve(Q.T @ A @ Q, Q.T @ (b - A @ x0))
        else:
            want = x0
        ctx.ok(int(sol.iterations) == t, "cg-iterations-equal-budget", t=t, it=int(sol.iterations), form=form)
        ctx.close(x, want, "cg-krylov-iterate:" + form, tol=1e-6, scale=max(nrm(xs), nrm(x0)), t=t)
        e = float((x - xs) @ A @ (x - xs))
        ctx.leq(e, prev, "cg-energy-error-monotone", slack=1e-9 * max(1, float(xs @ A @ xs)), t=t, form=form)
        prev = e
    ctx.nontrivial(form=form, n=n, b=b[:2])


@group("C10", quick=2 * len(CGF), thorough=12 * len(CGF))
def cg_defaults(ctx, i):
    """Default budget and tolerance: 1e-4 relative accuracy on well conditioned systems; stops early only then."""
    rng = ctx.rng
    form = CGF[i % len(CGF)]
    n = ri(rng, 2, 18)
    A = spd(rng, n, 3.)
    b = rv(rng, (n,))
    if i // len(CGF) == 1:
        b = 0 * b
    op = lambda v: J(A) @ v
    x0 = J(np.zeros(n))
    sol = {"cg.solve": lambda: cg.solve(J(A), J(b)), "cg.solve_jit": lambda: cg.solve_jit(J(A), J(b)),
           "cg.from": lambda: cg.solve_from(J(A), J(b), x0), "cg.from_jit": lambda: cg.solve_from_jit(J(A), J(b), x0),
           "pcg.solve": lambda: pcg.solve(op, J(b)), "pcg.solve_jit": lambda: pcg.solve_jit(op, J(b)),
           "pcg.from": lambda: pcg.solve_from(op, J(b), x0), "pcg.from_jit": lambda: pcg.solve_from_jit(op, J(b), x0),
           "pcg.M": lambda: pcg.solve(op, J(b), M=lambda r: r / J(np.diag(A)))}[form]()
    x = np.asarray(sol.x)
    ctx.finite(x, "finite-default", form=form, zero=not np.any(b))
    ctx.leq(nrm(b - A @ x), 1e-4 * nrm(b), "default-accuracy:" + form, slack=1e-12, n=n)
    ctx.ok(int(sol.iterations) <= (n if form.startswith("cg") else 20), "default-budget", it=int(sol.iterations), form=form)
    ctx.nontrivial(form=form, n=n, zero=not np.any(b))


@group("C10", quick=18, thorough=80, mode="f32")
def f32(ctx, i):
    rng = ctx.rng
    n = ri(rng, 2, 10)
    if i % 2:
        A = mat(rng, n + 4, n, 3.)
        b = A @ rv(rng, (n,)) + .2 * rv(rng, (n + 4,))
        sol = sls.lsqr(lop.matrix(J(A)), J(b), J(np.zeros(n)), max_iters=3 * n)
        w = np.linalg.lstsq(A, b, rcond=None)[0]
        ctx.close(sol.x, w, "least-squares-solution:f32", tol=2e-3, scale=max(nrm(w), 1e-2))
    else:
        form = CGF[i // 2 % len(CGF)]
        A = spd(rng, n, 5.)
        b = rv(rng, (n,))
        sol = run_cg(form, A, b, np.zeros(n), 3 * n, 1e-4, None)
        ctx.leq(nrm(b - A @ np.asarray(sol.x)), 3e-4 * nrm(b), "meets-requested-accuracy:f32", form=form)
    ctx.nontrivial(i=i, n=n, b=b[:2])


@group("C10", quick=8, thorough=60)
def cg_dense(ctx, i):
    """many systems, accuracies and preconditioners through one compiled solver"""
    rng = ctx.rng
    kind = ["cg", "pcg", "pcg.M", "pcg.Mdense"][i % 4]
    n = [6, 11][(i // 4) % 2]
    iters = 5 * n
    if kind == "cg":
        f = jax.jit(lambda A, b, x0, d, tl, at: cg.solve_from(A, b, x0, max_iters=iters, res_norm_rtol=tl))
    elif kind == "pcg":
        f = jax.jit(lambda A, b, x0, d, tl, at: pcg.solve_from(lambda v: A @ v, b, x0, max_iters=iters, tol=tl, atol=at))
    else:
        f = jax.jit(lambda A, b, x0, d, tl, at: pcg.solve_from(lambda v: A @ v, b, x0, max_iters=iters, tol=tl, atol=at, M=lambda r: d @ r))
    short = 0
    for t in range(60):
        A = spd(rng, n, float(rng.uniform(1, 40)))
        b = rv(rng, (n,)) * 10. ** rng.uniform(-3, 3)
        x0 = np.zeros(n) if rng.random() < .3 else rv(rng, (n,)) * float(rng.choice([.1, 1., 30.])) * nrm(b) / nrm(A, 2)
        if rng.random() < .1:
            x0 = np.linalg.solve(A, b)
        if kind == "pcg.Mdense":
            d = spd(rng, n, 3.)
        else:
            d = np.diag(rng.uniform(.5, 2, n) / np.diag(A))
        d = d * 10. ** rng.uniform(-4, 4)
        tl = 10. ** rng.uniform(-9, -.5)
        at = 0. if kind == "cg" or rng.random() < .5 else nrm(b) * 10. ** rng.uniform(-8, -.5)
        if at and rng.random() < .3:
            tl = 0.
        sol = f(J(A), J(b), J(x0), J(d), tl, at)
        goal = max(tl * nrm(b), at)
        x = np.asarray(sol.x)
        it = int(sol.iterations)
        rr = np.asarray(sol.r)
        r = b - A @ x
        p = dict(kind=kind, n=n, rtol=tl, atol=at, it=it, t=t)
        sc = nrm(b) + nrm(A, 2) * nrm(x0)
        ctx.leq(nrm(r), goal, "cg-dense:meets-requested-accuracy:" + kind, slack=1e-11 * sc, **p)
        ctx.close(rr, r, "cg-dense:reported-residual", tol=1e-9, scale=sc, **p)
        ctx.leq(it, iters, "cg-dense:budget", **p)
        if nrm(b - A @ x0) < goal * (1 - 1e-6):
            ctx.ok(it == 0, "cg-dense:nothing-to-do", **p)
        elif it:
            short += 1
            # not a step more than needed: Krylov-optimal residual in the A-norm one step before did not meet the tolerance
            v = (d @ (b - A @ x0)) if kind.startswith("pcg.M") else b - A @ x0
            K = []
            for _ in range(it - 1):
                K.append(v / nrm(v))
                v = A @ K[-1]
                v = d @ v if kind.startswith("pcg.M") else v
            if it == 1:
                prev = x0
            else:
                U, s, _ = np.linalg.svd(np.stack(K, 1), full_matrices=False)
                if s[-1] < 1e-5 * s[0]:
                    continue
                prev = x0 + U @ np.linalg.solve(U.T @ A @ U, U.T @ (b - A @ x0))
            ctx.leq(goal, nrm(b - A @ prev), "cg-dense:not-a-step-too-many:" + kind, slack=1e-6 * goal + 1e-9 * sc, **p)
    ctx.nontrivial(kind=kind, n=n, b=b[:2])
    ctx.leq(20, short, "cg-dense:workload")
