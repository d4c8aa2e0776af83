"""C12: Euclidean projections return the nearest point of their set."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.opt as opt
from vh import plain
from vh.core import group
from vh.lopcat import rv, ri

J = jnp.asarray


def ref_l1(x, q):
    """Independent reference: bisection on the soft threshold."""
    if np.abs(x).sum() <= q:
        return x.copy()
    lo, hi = 0., np.abs(x).max()
    for _ in range(200):
        mid = .5 * (lo + hi)
        if np.maximum(np.abs(x) - mid, 0).sum() > q:
            lo = mid
        else:
            hi = mid
    return np.sign(x) * np.maximum(np.abs(x) - .5 * (lo + hi), 0)


def point(rng, n, kind):
    x = rng.normal(size=n)
    if kind == "ties":
        x = rng.choice([-1., 1.], n) * rng.choice([.5, 1., 2.])
    elif kind == "sparse":
        x = x * (rng.random(n) < .3)
    elif kind == "wide":
        x = x * 10. ** rng.uniform(-6, 3, n)
    elif kind == "huge":
        x = x * 1e4
    elif kind == "tiny":
        x = x * 1e-5
    elif kind == "zero":
        x = np.zeros(n)
    elif kind == "onehot":
        x = np.zeros(n)
        x[ri(rng, 0, n - 1)] = rng.normal() * 3
    return x


KINDS = ["gauss", "ties", "sparse", "wide", "huge", "tiny", "zero", "onehot"]


def judge(ctx, name, proj, members, x, want, p, tol, is_in):
    """Nearest-point characterisation: p in C and <x-p, c-p> <= 0 for every c in C."""
    scale = max(np.linalg.norm(x), np.linalg.norm(want), 1.)
    got = np.asarray(proj(J(x)))
    ctx.close(got, want, f"nearest-point:{name}", tol=tol, scale=scale, x=x, **p)
    g = got.astype(np.complex128 if np.iscomplexobj(got) else np.float64)
    ctx.leq(is_in(g), 0, f"feasible:{name}", slack=tol * scale, x=x, **p)
    worst = -np.inf
    for c in members:
        d = float(np.real(np.vdot(x - g, c - g)))
        worst = max(worst, d / max(np.linalg.norm(c - g), 1.))
        ctx.count("variational-inequality")
    ctx.leq(worst, 0, f"variational:{name}", slack=10 * tol * scale * max(1., np.linalg.norm(x - g)), x=x, **p)
    g2 = np.asarray(proj(J(got)))
    ctx.close(g2, got, f"idempotent:{name}", tol=tol, scale=scale, **p)
    return got


SETS = ["zero", "identity", "singleton", "affine", "affine0", "box", "lower", "upper", "l2", "l2b", "l1", "l1b",
        "conic", "to_ball", "to_box", "to_real_upper"]


def make(rng, name, n):
    """-> proj, ref(x), member sampler, infeasibility measure"""
    if name == "zero":
        return opt.proj_zero(), lambda x: 0 * x, lambda: np.zeros(n), lambda z: np.linalg.norm(z)
    if name == "identity":
        return opt.proj_identity(), lambda x: x, lambda: rv(rng, (n,)), lambda z: 0.
    if name == "singleton":
        c = rv(rng, (n,))
        if rng.random() < .3:
            s = float(rng.normal())
            return opt.proj_singleton(s), lambda x: np.full(n, s), lambda: np.full(n, s), lambda z: np.linalg.norm(z - s)
        return opt.proj_singleton(J(c)), lambda x: c, lambda: c, lambda z: np.linalg.norm(z - c)
    if name in ("affine", "affine0"):
        m = ri(rng, 1, max(1, n - 1))
        A = rv(rng, (m, n)) + 0.
        U, s, V = np.linalg.svd(A, full_matrices=False)
        A = (U * rng.uniform(.5, 3, m)) @ V
        b = rv(rng, (m,)) if name == "affine" else np.zeros(m)
        P = np.linalg.pinv(A)
        pr = opt.proj_affine(J(A), J(b)) if name == "affine" else opt.proj_affine(J(A))
        return pr, lambda x: x - P @ (A @ x - b), \
            lambda: P @ b + (lambda w: w - P @ (A @ w))(3 * rv(rng, (n,))), lambda z: np.linalg.norm(A @ z - b)
    if name in ("box", "lower", "upper"):
        l = rv(rng, (n,))
        u = l + rng.uniform(0, 2, n) * (rng.random(n) < .8)
        if rng.random() < .3:
            l, u = np.full(n, -.5), np.full(n, .7)
            L, U = -.5, .7
        else:
            L, U = J(l), J(u)
        if name == "lower":
            return opt.proj_box(l=L), lambda x: np.maximum(x, l), lambda: l + rng.exponential(size=n) * 3, \
                lambda z: np.maximum(l - z, 0).max()
        if name == "upper":
            return opt.proj_box(u=U), lambda x: np.minimum(x, u), lambda: u - rng.exponential(size=n) * 3, \
                lambda z: np.maximum(z - u, 0).max()
        return opt.proj_box(L, U), lambda x: np.clip(x, l, u), \
            lambda: np.where(rng.random(n) < .5, l, u) if rng.random() < .5 else rng.uniform(l, u), \
            lambda z: max(np.maximum(z - u, 0).max(), np.maximum(l - z, 0).max())
    q = float(rng.choice([.1, .5, 1., 2.5, 7.])) if rng.random() < .8 else 1.
    b = rv(rng, (n,)) if name.endswith("b") else np.zeros(n)
    if name in ("l2", "l2b"):
        pr = opt.proj_l2_ball(q, b=J(b)) if name == "l2b" else (opt.proj_l2_ball() if q == 1. else opt.proj_l2_ball(q))

        def f(x):
            r = x - b
            nr = np.linalg.norm(r)
            return b + (r if nr <= q else r * (q / nr))

        def mem():
            v = rv(rng, (n,))
            return b + q * v / np.linalg.norm(v) * rng.choice([1., rng.random()])
        return pr, f, mem, lambda z: np.linalg.norm(z - b) - q
    if name in ("l1", "l1b"):
        pr = opt.proj_l1_ball(q, b=J(b)) if name == "l1b" else (opt.proj_l1_ball() if q == 1. else opt.proj_l1_ball(q))

        def mem():
            if rng.random() < .6:
                v = np.zeros(n)
                v[ri(rng, 0, n - 1)] = q * rng.choice([-1., 1.])
                return b + v
            v = rv(rng, (n,))
            return b + q * v / np.abs(v).sum()
        return pr, lambda x: b + ref_l1(x - b, q), mem, lambda z: np.abs(z - b).sum() - q
    if name == "conic":
        def f(y):
            x, t = y[:-1], y[-1]
            nx = np.linalg.norm(x)
            if nx <= t:
                return y
            if nx <= -t:
                return 0 * y
            return (nx + t) / 2 * np.append(x / nx, 1.)

        def mem():
            v = rv(rng, (n - 1,))
            s = rng.exponential() * 3
            v = v / np.linalg.norm(v) * s * rng.choice([1., rng.random()])
            return np.append(v, s)
        return opt.proj_conic(), f, mem, lambda z: np.linalg.norm(z[:-1]) - z[-1]
    if name == "to_ball":
        def f(x):
            nr = np.linalg.norm(x)
            return x if nr <= q else x * (q / nr)

        def mem():
            v = rv(rng, (n,))
            return q * v / np.linalg.norm(v)
        return (lambda x: opt.project_to_ball(x, q) if q != 1. else opt.project_to_ball(x)), f, mem, \
            lambda z: np.linalg.norm(z) - q
    if name == "to_box":
        return (lambda x: opt.project_to_box(x, q) if q != 1. else opt.project_to_box(x)), \
            lambda x: np.where(np.abs(x) > q, x / np.maximum(np.abs(x), 1e-300) * q, x), \
            lambda: q * rng.choice([-1., 1.], n), lambda z: np.abs(z).max() - q
    if name == "to_real_upper":
        return (lambda x: opt.project_to_real_upper_limit(x, q) if q != 1. else opt.project_to_real_upper_limit(x)), \
            lambda x: np.minimum(np.real(x), q), lambda: q - rng.exponential(size=n) * 3, \
            lambda z: max(np.max(np.real(z)) - q, np.abs(np.imag(z)).max())
    raise KeyError(name)


COMPLEX = {"to_ball", "to_box", "to_real_upper"}


def run(ctx, i, tol):
    rng = ctx.rng
    name = SETS[i % len(SETS)]
    n = int(rng.choice([1, 2, 3, 5, 8, 13, 40])) if name not in ("affine", "affine0", "conic") else ri(rng, 2, 12)
    proj, ref, mem, infeas = make(rng, name, n)
    slack = max(tol, 4e-7) if name == "l2b" else tol
    pts = []
    for kind in [KINDS[(i // len(SETS) + j) % len(KINDS)] for j in range(4)] + ["member", "boundary"]:
        if kind == "member":
            x = np.array(mem())
        elif kind == "boundary":
            x = np.array(ref(point(rng, n, "gauss") * 4))
        else:
            x = point(rng, n, kind)
            if name == "conic" and kind == "zero" and rng.random() < .5:
                x[-1] = rng.choice([-1., 1.])
            if name in COMPLEX and rng.random() < .4:
                x = x + 1j * point(rng, n, kind)
        p = dict(set=name, n=n, kind=kind)
        got = judge(ctx, name, proj, [np.array(mem()) for _ in range(8)], x, np.asarray(ref(x)), p, slack, infeas)
        if kind == "member":
            ctx.close(got, x, "members-are-fixed", tol=slack, scale=max(np.linalg.norm(x), 1.), **p)
        pts.append((x, got))
    for (x, px) in pts:
        for (y, py) in pts:
            d = np.linalg.norm(x - y)
            ctx.leq(np.linalg.norm(px - py), d, "non-expansive",
                    slack=slack * max(1., np.linalg.norm(x), np.linalg.norm(y)), set=name)
    ctx.nontrivial(set=name, n=n, start=i // len(SETS) % len(KINDS))


@group("C12", quick=10 * len(SETS), thorough=80 * len(SETS))
def projections(ctx, i):
    run(ctx, i, 1e-8)


@group("C12", quick=4 * len(SETS), thorough=30 * len(SETS), mode="f32")
def projections_f32(ctx, i):
    run(ctx, i, 2e-5)


@group("C12", quick=2*len(SETS), thorough=16 * len(SETS))
def traced(ctx, i):
    """The same projection inside jit and mapped over a batch."""
    rng = ctx.rng
    name = SETS[i % len(SETS)]
    n = ri(rng, 2, 9)
    proj, ref, mem, infeas = make(rng, name, n)
    X = np.stack([point(rng, n, k) for k in ("gauss", "ties", "sparse", "huge")])
    tol = 4e-7 if name == "l2b" else 1e-8
    Y = np.asarray(jax.vmap(proj)(J(X)))
    Z = np.asarray(jax.jit(proj)(J(X[0])))
    for k in range(len(X)):
        ctx.close(Y[k], ref(X[k]), "vmapped:" + name, tol=tol, scale=max(1, np.linalg.norm(X[k])))
    ctx.close(Z, ref(X[0]), "jitted:" + name, tol=tol, scale=max(1, np.linalg.norm(X[0])))
    ctx.nontrivial(set=name, n=n)


@group("C12", quick=72, thorough=360)
def arrays(ctx, i):
    """matrices and N-D arrays are projected as the vectors of their entries"""
    rng = ctx.rng
    sh = [(3, 4), (5, 1), (1, 6), (2, 3, 2), (6, 6), (1, 1)][(i // 6) % 6]
    x = rv(rng, sh) * 10. ** rng.uniform(-.5, 1.5)
    b = rv(rng, sh)
    q = float(rng.uniform(.3, 3.))
    lo = -abs(rv(rng, sh))
    k = i % 6
    d = x - b
    pr, want = [(opt.proj_zero(), 0 * x), (opt.proj_identity(), x), (opt.proj_singleton(J(b)), b),
                (opt.proj_box(J(lo), 1.), np.clip(x, lo, 1.)),
                (opt.proj_l2_ball(q), x * min(1., q / np.linalg.norm(x))),
                (opt.proj_l2_ball(q, b=J(b)), b + d * min(1., q / np.linalg.norm(d)))][k]
    nm = ["zero", "identity", "singleton", "box", "l2", "l2b"][k]
    y = np.asarray(pr(J(x)))
    p = dict(set=nm, shape=str(sh), q=q)
    if ctx.ok(y.shape == sh, "arrays:shape", got=str(y.shape), **p):
        ctx.close(y, want, "arrays:nearest-point", tol=1e-6, scale=max(np.linalg.norm(x), 1.), **p)
    ctx.nontrivial(x=float(x.ravel()[0]), **p)


@group("C12", quick=11, thorough=110)
def plain_inputs(ctx, i):
    """points, bounds, centres and matrices may be lists or integers"""
    rng = ctx.rng
    n = ri(rng, 2, 7)
    x, c = rng.integers(-6, 7, n), rng.integers(-3, 4, n)
    lo, hi = -rng.integers(0, 3, n), rng.integers(0, 3, n)
    m = max(1, n // 2)
    A = np.concatenate([np.eye(m, dtype=int), rng.integers(-2, 3, (m, n - m))], 1)
    b = rng.integers(-3, 4, m)
    q = int(rng.integers(1, 4))
    cases = [("zero", lambda x: opt.proj_zero()(x) * 1., (x,)), ("identity", lambda x: opt.proj_identity()(x), (x,)),
             ("singleton", lambda x, c: opt.proj_singleton(c)(x), (x, c)), ("affine", lambda x, A, b: opt.proj_affine(A, b)(x), (x, A, b)),
             ("box", lambda x, l, u: opt.proj_box(l, u)(x), (x, lo, hi)), ("l2", lambda x: opt.proj_l2_ball(q)(x), (x,)),
             ("l2b", lambda x, c: opt.proj_l2_ball(q, b=c)(x), (x, c)), ("l1", lambda x: opt.proj_l1_ball(q)(x), (x,)),
             ("l1b", lambda x, c: opt.proj_l1_ball(q, b=c)(x), (x, c)), ("conic", lambda x: opt.proj_conic()(x), (x,)),
             ("lower", lambda x, l: opt.proj_box(l=l)(x), (x, lo))]
    nm, f, a = cases[i % len(cases)]
    plain.monitor(ctx, nm, f, *a, n=n, q=q)
    ctx.nontrivial(case=nm, x=str(x), n=n)
