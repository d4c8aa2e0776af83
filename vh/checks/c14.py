"""C14: function objects: values, gradients, joint evaluation, translation, indicators and envelopes agree
with the mathematical function they stand for."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.opt as opt
from vh import plain
from vh.core import group
from vh.lopcat import rv, ri
from vh.checks.c13 import make as make_prox, PROX
from vh.checks.c12 import point, KINDS

J = jnp.asarray

FN = ["constant", "linear", "linear2d", "huber", "huber2d", "quad", "quadnonsym", "quadI", "quadq", "quaderr", "entropy",
      "entropy_vg", "logdet", "logdetC", "auto", "pair", "triple", "evaluator"]


def make(rng, name, n):
    """-> SmoothFunction, value model, point sampler"""
    gen = lambda: rv(rng, (n,)) * float(rng.choice([.2, 1., 5.]))
    if name == "constant":
        c = float(rng.normal())
        return opt.smooth_constant(c), lambda x: c, gen
    if name == "linear":
        c, d = rv(rng, (n,)), float(rng.normal()) * (rng.random() < .7)
        return opt.smooth_linear(J(c), d), lambda x: c @ x + d, gen
    if name == "linear2d":
        c, d = rv(rng, (n, 3)), float(rng.normal())
        return opt.smooth_linear(J(c), d), lambda x: np.sum(c * x) + d, lambda: rv(rng, (n, 3))
    if name in ("huber", "huber2d"):
        tau = float(rng.choice([.3, 1., 2.5]))
        f = opt.smooth_huber() if tau == 1. else opt.smooth_huber(tau)
        g = gen if name == "huber" else (lambda: rv(rng, (n, 3)) * 2)
        return f, lambda x: np.sum(np.where(np.abs(x) <= tau, x ** 2 / (2 * tau), np.abs(x) - tau / 2)), g
    if name in ("quad", "quadnonsym"):
        P = rv(rng, (n, n))
        if name == "quad":
            P = P + P.T
        q, r = rv(rng, (n,)), float(rng.normal())
        use_q, use_r = rng.random() < .7, rng.random() < .7
        return opt.smooth_quad_matrix(J(P), J(q) if use_q else None, r if use_r else None), \
            lambda x: .5 * x @ P @ x + use_q * (q @ x) + use_r * r, gen
    if name == "quadI":
        return opt.smooth_quad_matrix(), lambda x: .5 * x @ x, gen
    if name == "quadq":
        q = rv(rng, (n,))
        return opt.smooth_quad_matrix(q=J(q), r=2.), lambda x: .5 * x @ x + q @ x + 2., gen
    if name == "quaderr":
        A, b = rv(rng, (ri(rng, 1, 9), n)), None
        b = rv(rng, (A.shape[0],))
        return opt.smooth_quad_error(J(A), J(b)), lambda x: .5 * np.sum((A @ x - b) ** 2), gen
    if name in ("entropy", "entropy_vg"):
        f = opt.smooth_entropy() if name == "entropy" else opt.smooth_entropy_vg()
        return f, lambda x: -np.sum(x * np.log(x)), lambda: rng.uniform(.02, 3, n)
    if name in ("logdet", "logdetC"):
        q = float(rng.choice([.5, 1., 3.]))
        C = rv(rng, (n, n)) if name == "logdetC" else None
        if C is not None:
            C = C + C.T
        f = opt.smooth_logdet(q, J(C)) if C is not None else (opt.smooth_logdet() if q == 1. else opt.smooth_logdet(q))

        def gx():
            B = rv(rng, (n, n))
            return B @ B.T + .5 * np.eye(n)
        return f, lambda X: -q * np.linalg.slogdet(X)[1] + (np.sum(C * X) if C is not None else 0), gx
    c = rv(rng, (n,))
    val = lambda x: np.log(np.sum(np.exp(c * x))) + np.sum(np.sin(x))
    jf = lambda x: jnp.log(jnp.sum(jnp.exp(J(c) * x))) + jnp.sum(jnp.sin(x))
    jg = lambda x: J(c) * jax.nn.softmax(J(c) * x) + jnp.cos(x)
    g1 = lambda: rv(rng, (n,))
    if name == "auto":
        return opt.smooth_build(jf), val, g1
    if name == "pair":
        return opt.smooth_build2(jf, jg), val, g1
    if name == "triple":
        return opt.smooth_build3(jf, jg, lambda x: (jg(x), jf(x))), val, g1
    if name == "evaluator":
        ev = opt.smooth_value_grad(jf, jg)
        return opt.SmoothFunction(lambda x: ev(x, 0), lambda x: ev(x, 1), lambda x: ev(x, 2)[::-1]), val, g1
    raise KeyError(name)


def numgrad(f, x, sym=False):
    g = np.zeros_like(x)
    h = 1e-5
    for k in np.ndindex(*x.shape):
        e = np.zeros_like(x)
        if sym:
            e[k] += .5
            e[k[::-1]] += .5
        else:
            e[k] = 1.
        g[k] = (-f(x + 2 * h * e) + 8 * f(x + h * e) - 8 * f(x - h * e) + f(x - 2 * h * e)) / (12 * h)
    return g


def judge(ctx, f, val, x, p, sym=False, smooth_pt=True):
    v = val(x)
    sc = max(1., abs(v))
    gv = f.func(J(x))
    ctx.ok(np.asarray(gv).shape == (), "value-is-scalar", got=str(np.asarray(gv).shape), **p)
    ctx.leq(np.max(np.abs(np.asarray(gv) - v)), 1e-9 * sc, "value:" + p["fn"], want=v, x=x, **p)
    g = np.asarray(f.grad(J(x)))
    if smooth_pt:
        ng = numgrad(val, x, sym)
        ctx.close(g + 0 * x if p["fn"].startswith("linear") else g, ng, "gradient:" + p["fn"], tol=5e-5 if p["fn"].startswith("huber") else 2e-6,
                  scale=max(np.linalg.norm(ng), 1., abs(v)), x=x, **p)
    jg, jv = f.grad_val(J(x))
    ctx.leq(np.max(np.abs(np.asarray(jv) - v)), 1e-9 * sc, "joint-value:" + p["fn"], x=x, **p)
    ctx.close(jg, g, "joint-gradient:" + p["fn"], tol=1e-9, scale=max(1., np.linalg.norm(g)), **p)


@group("C14", quick=4 * len(FN), thorough=60 * len(FN))
def smooth(ctx, i):
    rng = ctx.rng
    name = FN[i % len(FN)]
    n = ri(rng, 1, 7)
    f, val, gen = make(rng, name, n)
    sym = name.startswith("logdet")
    for _ in range(3):
        x = gen()
        judge(ctx, f, val, x, dict(fn=name, n=n), sym)
    if not sym:
        b = gen() * .1
        t = opt.smooth_func_translate(f, J(b))
        x = gen()
        if name.startswith("entropy"):
            b = np.abs(b)
            t = opt.smooth_func_translate(f, J(b))
        judge(ctx, t, lambda z: val(z + b), x, dict(fn=name, n=n, translated=True))
    ctx.nontrivial(fn=name, n=n, k=i // len(FN))


@group("C14", quick=12, thorough=80)
def domains(ctx, i):
    """Outside their domain the entropy functions say so; at its boundary 0 log 0 = 0; integer data is accepted."""
    rng = ctx.rng
    n = ri(rng, 2, 8)
    for f in (opt.smooth_entropy(), opt.smooth_entropy_vg()):
        x = rng.uniform(.1, 2, n)
        x[ri(rng, 0, n - 1)] = -rng.uniform(1e-3, 2)
        ctx.ok(float(f.func(J(x))) == -np.inf, "entropy-outside", x=x)
        ctx.ok(float(f.grad_val(J(x))[1]) == -np.inf, "entropy-outside-joint", x=x)
        ctx.ok(np.all(np.isnan(np.asarray(f.grad(J(x))))), "entropy-gradient-outside")
        x = rng.uniform(.1, 2, n)
        x[ri(rng, 0, n - 1)] = 0.
        w = -np.sum(np.where(x > 0, x * np.log(np.where(x > 0, x, 1)), 0))
        ctx.leq(abs(float(f.func(J(x))) - w), 1e-9, "entropy-boundary", x=x)
        g, v = f.grad_val(J(x))
        ctx.ok(np.allclose(np.asarray(g), np.asarray(f.grad(J(x))), rtol=1e-9, equal_nan=True), "entropy-boundary-joint", x=x)
        ctx.leq(abs(float(v) - w), 1e-9, "entropy-boundary-joint-value", x=x)
        pos = x > 0
        ctx.close(np.asarray(g)[pos], -np.log(x[pos]) - 1, "entropy-boundary-gradient", tol=1e-9)
    g = [np.asarray(f.grad(J(x))) for f in (opt.smooth_entropy(), opt.smooth_entropy_vg())]
    ctx.ok(np.allclose(g[0], g[1], equal_nan=True), "entropy-variants-agree", x=x)
    k = rng.integers(-4, 5, n)
    tau = float(rng.choice([.5, 1., 2.]))
    ctx.leq(abs(float(opt.smooth_huber(tau).func(J(k))) - np.sum(np.where(abs(k) <= tau, k ** 2 / (2 * tau), abs(k) - tau / 2))),
            1e-9, "integer-input")
    ctx.leq(abs(float(opt.smooth_quad_matrix().func(J(k))) - .5 * np.sum(k ** 2)), 1e-9, "integer-input")
    ctx.nontrivial(n=n, x=x)


# ------------------------------------------------------------------ indicators
IND = ["zero", "singleton", "affine", "affine0", "box", "lower", "upper", "boxaffine", "conic", "l2", "l2b", "l2A", "l2Ab",
       "l1", "l1b", "l1A", "l1Ab"]


def ind(rng, name, n):
    """-> indicator, generator of clear members, generator of clear non-members"""
    tiny = lambda: float(10. ** rng.uniform(-4, 1))
    sgn = lambda: rng.choice([-1., 1.])
    if name == "zero":
        def bad():
            x = np.zeros(n)
            x[ri(rng, 0, n - 1)] = sgn() * tiny()
            return x
        return opt.indicator_zero(), lambda: np.zeros(n), bad
    if name == "singleton":
        c = rv(rng, (n,))

        def bad():
            x = c.copy()
            x[ri(rng, 0, n - 1)] += sgn() * tiny()
            return x
        return opt.indicator_singleton(J(c)), lambda: c.copy(), bad
    if name in ("affine", "affine0"):
        # integer data so that membership is exact in floating point
        m = ri(rng, 1, max(1, n - 1))
        A = rng.integers(-3, 4, (m, n)).astype(float)
        A[:, 0] = 1.
        x0 = rng.integers(-4, 5, n).astype(float)
        if name == "affine":
            x0[-1] += 1
            b = A @ x0
            if not np.any(b):
                b = A @ (x0 + np.eye(n)[0])
                x0 = x0 + np.eye(n)[0]
            I = opt.indicator_affine(J(A), J(b))
        else:
            z = np.zeros(n)
            U, s, V = np.linalg.svd(A)
            N = V[np.sum(s > 1e-9):]
            return (opt.indicator_affine(J(A), J(np.zeros(m))) if rng.random() < .5 else opt.indicator_affine(J(A))), \
                (lambda: N.T @ rv(rng, (N.shape[0],)) if len(N) else z), (lambda: z + np.eye(n)[0] * sgn() * tiny())
        return I, lambda: x0.copy(), lambda: x0 + np.eye(n)[0] * sgn() * tiny() * 10
    if name in ("box", "lower", "upper", "boxaffine"):
        l = rv(rng, (n,))
        u = l + rng.uniform(.1, 2, n)

        def good():
            return np.where(rng.random(n) < .3, l, np.where(rng.random(n) < .3, u, rng.uniform(l, u)))

        def bad(lo=True, up=True):
            x = good()
            k = ri(rng, 0, n - 1)
            low = lo and (not up or rng.random() < .5)
            x[k] = l[k] - tiny() if low else u[k] + tiny()
            return x
        if name == "box":
            return opt.indicator_box(J(l), J(u)), good, bad
        if name == "lower":
            return opt.indicator_box(l=J(l)), lambda: l + rng.exponential(size=n) * 5, lambda: bad(up=False)
        if name == "upper":
            return opt.indicator_box(u=J(u)), lambda: u - rng.exponential(size=n) * 5, lambda: bad(lo=False)
        a = rng.uniform(.5, 2, n) * rng.choice([-1., 1.], n)
        x0 = .5 * (l + u)
        alpha = float(a @ x0)
        use = ri(rng, 0, 2)
        I = opt.indicator_box_affine(J(l) if use != 1 else None, J(u) if use != 2 else None, J(a), alpha)

        def g2():
            d = rv(rng, (n,))
            d = d - a * (a @ d) / (a @ a)
            return x0 + d * (.49 * np.min(u - l)) / max(np.abs(d).max(), 1e-12) if n > 1 else x0

        def b2():
            if rng.random() < .5 or n == 1:
                return x0 + a / (a @ a) * sgn() * max(tiny() * .01, 1e-4) if use == 0 else x0 + a * sgn() * .05
            k, j = rng.choice(n, 2, replace=False)
            x = x0.copy()
            d = (u - l)[k] * .5 + tiny()
            if use == 1:
                s = -1.
                s = 1. if False else s
            s = {0: sgn(), 1: 1., 2: -1.}[use]
            x[k] += s * d
            x[j] -= s * d * a[k] / a[j]
            return x if use == 0 else None
        return I, g2, b2
    if name == "conic":
        def good():
            v = rv(rng, (n - 1,)) if n > 1 else np.zeros(0)
            return np.append(v, np.linalg.norm(v) * (1 + rng.uniform(1e-6, 1)) + 1e-9)

        def bad():
            v = rv(rng, (n - 1,)) if n > 1 else np.zeros(0)
            nv = np.linalg.norm(v)
            return np.append(v, rng.choice([nv * (1 - rng.uniform(1e-6, 1)) - 1e-9, -nv * 1.5 - .1, -nv * .5 - 1e-6]))
        return opt.indicator_conic(), good, bad
    q = float(rng.choice([.3, 1., 4.]))
    o = 1 if name.startswith("l1") else 2
    A = rv(rng, (n, n)) + 3 * np.eye(n) if "A" in name else None
    b = rv(rng, (n,)) if name.endswith("b") else None
    f = opt.indicator_l1_ball if o == 1 else opt.indicator_l2_ball
    I = f(q, b=None if b is None else J(b), A=None if A is None else J(A)) if (A is not None or b is not None or q != 1.) else f()

    def at(s):
        v = rv(rng, (n,))
        v = v / np.linalg.norm(v, o) * q * s + (b if b is not None else 0)
        return np.linalg.solve(A, v) if A is not None else v
    return I, lambda: at(1 - 10. ** rng.uniform(-6, 0)), lambda: at(1 + 10. ** rng.uniform(-6, 1))


@group("C14", quick=5 * len(IND), thorough=60 * len(IND))
def indicators(ctx, i):
    rng = ctx.rng
    name = IND[i % len(IND)]
    n = ri(rng, 2, 9)
    I, good, bad = ind(rng, name, n)
    for k in range(6):
        x = good()
        v = float(I(J(x)))
        ctx.ok(v == 0., "member-is-0:" + name, got=v, x=x)
        x = bad()
        if x is not None:
            v = float(I(J(x)))
            ctx.ok(v == np.inf, "outsider-is-inf:" + name, got=v, x=x)
    ctx.nontrivial(set=name, n=n, x=x if x is not None else 0)


# ------------------------------------------------------------------ Moreau envelopes
ENV = [p for p in PROX if p not in ("l1c", "l2c", "custom")] + ["custom"]


@group("C14", quick=3 * len(ENV), thorough=30 * len(ENV))
def envelopes(ctx, i):
    rng = ctx.rng
    name = ENV[i % len(ENV)]
    n = ri(rng, 2, 6)
    op, f, ref = make_prox(rng, name, n)
    mu = float(rng.choice([.1, .5, 1., 2., 8.]))
    M = opt.moreau_envelope(op, mu) if mu != 1. or rng.random() < .5 else opt.moreau_envelope(op)

    def val(x):
        z = ref(x, mu)
        fz = f(z)
        return (fz if np.isfinite(fz) else 0.) + np.sum((x - z) ** 2) / (2 * mu)
    for _ in range(2):
        x = rv(rng, (n,)) * float(rng.choice([.5, 2., 6.]))
        p = dict(fn="env-" + name, n=n, mu=mu)
        judge(ctx, M, val, x, p, smooth_pt=False)
        ng = numgrad(val, x)
        ctx.close(M.grad(J(x)), ng, "gradient:env-" + name, tol=5e-5, scale=max(1., np.linalg.norm(ng)), x=x, **p)
        ctx.close(M.grad(J(x)), (x - ref(x, mu)) / mu, "envelope-gradient:" + name, tol=1e-8, scale=max(1., np.linalg.norm(x) / mu), **p)
        fx = f(x)
        ctx.ok(float(M.func(J(x))) <= fx + 1e-9 * (1 + abs(fx) if np.isfinite(fx) else 1), "envelope-below-function", **p)
        # definition: the envelope never exceeds f(u) + |x-u|^2/(2mu) for any u
        for _ in range(5):
            u = x + rv(rng, (n,)) * float(rng.choice([.1, 1., 4.]))
            ctx.leq(float(M.func(J(x))), f(u) + np.sum((x - u) ** 2) / (2 * mu), "envelope-is-infimum", slack=1e-9 * max(1, abs(fx) if np.isfinite(fx) else 1), **p)
    ctx.nontrivial(fn=name, n=n, mu=mu)


@group("C14", quick=16, thorough=100)
def prox_wrapper(ctx, i):
    """Value / vector / joint modes of one prox-capable wrapper describe one function."""
    rng = ctx.rng
    n = ri(rng, 1, 8)
    q = float(rng.uniform(.2, 3))
    ev = opt.prox_value_vec(lambda x: q * jnp.sum(jnp.abs(x)), lambda x, t: jnp.sign(x) * jnp.maximum(jnp.abs(x) - q * t, 0))
    x, t = rv(rng, (n,)) * 2, float(rng.uniform(.1, 2))
    z = np.sign(x) * np.maximum(np.abs(x) - q * t, 0)
    ctx.leq(abs(float(ev(J(x), t, 0)) - q * np.abs(x).sum()), 1e-9 * (1 + np.abs(x).sum() * q), "mode-value")
    ctx.close(ev(J(x), t, 1), z, "mode-vector", tol=1e-9, scale=1 + np.linalg.norm(x))
    v, w = ev(J(x), t, 2)
    ctx.close(w, z, "mode-joint-vector", tol=1e-9, scale=1 + np.linalg.norm(x))
    ctx.leq(abs(float(v) - q * np.abs(z).sum()), 1e-9 * (1 + q * np.abs(x).sum()), "mode-joint-value")
    ctx.nontrivial(n=n, q=q)


@group("C14", quick=16, thorough=160)
def plain_inputs(ctx, i):
    """points and parameters may be lists or integers"""
    rng = ctx.rng
    n = ri(rng, 2, 7)
    x, c = rng.integers(-6, 7, n), rng.integers(-3, 4, n)
    pos = rng.integers(0, 5, n)
    m = max(1, n // 2)
    A = rng.integers(-2, 3, (m, n))
    P = rng.integers(-2, 3, (n, n))
    P = P @ P.T
    b = A @ x
    q = int(rng.integers(1, 4))
    both = lambda s: lambda x: (s.func(x), s.grad(x)) + tuple(s.grad_val(x))
    z = np.append(c, 8)
    cases = [("linear", lambda x, c: both(opt.smooth_linear(c, q))(x), (x, c)), ("huber", both(opt.smooth_huber(q)), (x,)),
             ("quad", lambda x, P, c: both(opt.smooth_quad_matrix(P, c, q))(x), (x, P, c)), ("quad-identity", both(opt.smooth_quad_matrix()), (x,)),
             ("error", both(opt.smooth_quad_error(jnp.asarray(A), jnp.asarray(b))), (x,)), ("entropy", lambda x: opt.smooth_entropy().func(x), (pos,)),
             ("entropy-joint", lambda x: opt.smooth_entropy_vg().grad_val(x), (pos,)),
             ("logdet", both(opt.smooth_logdet(q)), (P + 2 * np.eye(n, dtype=int),)),
             ("i-zero", opt.indicator_zero(), (x,)), ("i-singleton", lambda x, c: opt.indicator_singleton(c)(x), (x, [x, c][i // 16 % 2])),
             ("i-affine", lambda x, A, b: opt.indicator_affine(A, b)(x), (x, A, b)),
             ("i-box", lambda x, l, u: opt.indicator_box(l, u)(x), (x, c - 4, c + 4)), ("i-l2", opt.indicator_l2_ball(4 * q), (x,)),
             ("i-l2b", lambda x, c: opt.indicator_l2_ball(4 * q, b=c)(x), (x, c)), ("i-l1", opt.indicator_l1_ball(5 * q), (x,)),
             ("i-conic", opt.indicator_conic(), (z,))]
    nm, f, a = cases[i % len(cases)]
    plain.monitor(ctx, nm, f, *a, n=n, q=q)
    ctx.nontrivial(case=nm, x=str(x), n=n)
