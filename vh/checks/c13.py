"""C13: proximal operators and thresholding rules return the minimiser that defines them."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.opt as opt
import cr.sparse.geo as geo
import cr.sparse.sls as sls
from vh import plain
from vh.core import group
from vh.lopcat import rv, ri
from vh.checks.c12 import ref_l1, point, KINDS

J = jnp.asarray


def owl_ref(y, l):
    """Pool-adjacent-violators on the sorted magnitudes."""
    s, a = np.sign(y), np.abs(y)
    o = np.argsort(-a, kind="stable")
    blocks = []
    for v in a[o] - l:
        blocks.append([v, 1])
        while len(blocks) > 1 and blocks[-2][0] < blocks[-1][0]:
            b = blocks.pop()
            c = blocks.pop()
            n = b[1] + c[1]
            blocks.append([(b[0] * b[1] + c[0] * c[1]) / n, n])
    w = np.maximum(np.concatenate([[b[0]] * b[1] for b in blocks]), 0)
    out = np.zeros_like(y)
    out[o] = w
    return s * out


def soft(x, t):
    m = np.abs(x)
    return np.where(m > t, x * (1 - t / np.maximum(m, 1e-300)), 0)


PROX = ["zero", "l1", "l1w", "l1c", "l2", "l2c", "l1pos", "l1posw", "l1ball", "owl1", "owl1const", "indbox", "custom"]


def make(rng, name, n):
    """-> prox-capable, f(x) model, ref prox(x, t), domain sampler near p"""
    q = float(rng.choice([.3, 1., 2.5]))
    if name == "zero":
        return opt.prox_zero(), lambda x: 0., lambda x, t: x
    if name in ("l1", "l1c"):
        op = opt.prox_l1() if q == 1. else opt.prox_l1(q)
        return op, lambda x: q * np.abs(x).sum(), lambda x, t: soft(x, t * q)
    if name == "l1w":
        w = rng.uniform(0, 3, n) * (rng.random(n) < .8)
        return opt.prox_l1(J(w)), lambda x: np.abs(w * x).sum(), lambda x, t: soft(x, t * w)
    if name in ("l2", "l2c"):
        op = opt.prox_l2() if q == 1. else opt.prox_l2(q)

        def pr(x, t):
            v = np.linalg.norm(x)
            return x * max(0., 1 - t * q / v) if v > 0 else 0 * x
        return op, lambda x: q * np.linalg.norm(x), pr
    if name in ("l1pos", "l1posw"):
        w = q if name == "l1pos" else rng.uniform(0, 3, n) * (rng.random(n) < .7)
        op = opt.prox_l1_pos(J(w)) if name == "l1posw" else (opt.prox_l1_pos() if q == 1. else opt.prox_l1_pos(q))
        return op, lambda x: np.inf if np.any(x < 0) else np.sum(w * x), lambda x, t: np.maximum(0, x - t * w)
    if name == "l1ball":
        op = opt.prox_l1_ball() if q == 1. else opt.prox_l1_ball(q)
        return op, lambda x: 0. if np.abs(x).sum() <= q * (1 + 1e-6) else np.inf, lambda x, t: ref_l1(x, q)
    if name == "owl1":
        l = np.sort(rng.choice([rng.uniform(0, 2, n), rng.exponential(size=n), np.repeat(rng.uniform(0, 2), n)]))[::-1].copy()
        return opt.prox_owl1(J(l)), lambda x: np.sum(l * np.sort(np.abs(x))[::-1]), lambda x, t: owl_ref(x, t * l)
    if name == "owl1const":
        op = opt.prox_owl1() if q == 1. else opt.prox_owl1(q)
        return op, lambda x: q * np.abs(x).sum(), lambda x, t: soft(x, t * q)
    if name == "indbox":
        op = opt.build_from_ind_proj(opt.indicator_box(J(-q), J(q)), opt.proj_box(J(-q), J(q)))
        return op, lambda x: 0. if np.abs(x).max() <= q * (1 + 1e-6) else np.inf, lambda x, t: np.clip(x, -q, q)
    if name == "custom":
        op = opt.prox_build(lambda x: .5 * q * jnp.vdot(x, x), lambda x, t: x / (1 + t * q))
        return op, lambda x: .5 * q * np.vdot(x, x).real, lambda x, t: x / (1 + t * q)
    raise KeyError(name)


def run(ctx, i, tol):
    rng = ctx.rng
    name = PROX[i % len(PROX)]
    n = int(rng.choice([1, 2, 3, 6, 11, 24])) if name not in ("owl1",) else int(rng.choice([2, 5, 10, 20, 40]))
    op, f, ref = make(rng, name, n)
    got_pts = []
    kinds = [KINDS[(i // len(PROX) + j) % len(KINDS)] for j in range(4)]
    for kind in kinds:
        x = point(rng, n, kind)
        if name in ("l1c", "l2c"):
            x = x + 1j * point(rng, n, kind)
        t = float(rng.choice([.05, .3, 1., 4., 30.]))
        p = dict(fn=name, n=n, kind=kind, t=t)
        want = ref(x, t)
        scale = max(np.linalg.norm(x), 1.)
        z = np.asarray(op.prox_op(J(x), t))
        ctx.close(z, want, f"prox:{name}", tol=tol, scale=scale, x=x, **p)
        z2, v2 = op.prox_vec_val(J(x), t)
        ctx.close(z2, want, f"prox-vec:{name}", tol=tol, scale=scale, x=x, **p)
        fz = f(np.asarray(z2, dtype=np.complex128 if np.iscomplexobj(x) else np.float64))
        if np.isfinite(fz):
            ctx.leq(abs(float(v2) - fz), tol * max(1, abs(fz)), f"value-at-prox:{name}", got=float(v2), want=fz, **p)
        else:
            ctx.leq(abs(float(v2)), tol, f"value-at-prox:{name}", **p)
        fx = f(x)
        if name not in ("l1ball", "indbox"):
            gx = float(np.real(op.func(J(x))))
            ctx.ok((np.isinf(fx) and np.isinf(gx)) or abs(gx - fx) <= tol * max(1, abs(fx)), f"value:{name}",
                   got=gx, want=fx, x=x, **p)
        # definition: no candidate does better than the proximal point
        zz = np.asarray(z, dtype=np.complex128 if np.iscomplexobj(x) else np.float64)
        fzz = f(zz) if np.isfinite(f(zz)) else 0.
        obj = fzz + np.linalg.norm(zz - x) ** 2 / (2 * t)
        best = np.inf
        for _ in range(12):
            d = rng.normal(size=n) * 10. ** rng.uniform(-3, .5)
            if rng.random() < .4:
                d = d * (rng.random(n) < .3)
            if np.iscomplexobj(x):
                d = d * np.exp(1j * rng.uniform(0, 6.3, n))
            c = zz + d if rng.random() < .7 else x + d * .1
            if name.startswith("l1pos"):
                c = np.maximum(c, 0)
            if name == "l1ball" or name == "indbox":
                c = ref(c, 1.)
            ctx.count("candidate-compared")
            best = min(best, f(c) + np.linalg.norm(c - x) ** 2 / (2 * t))
        ctx.leq(obj, best, f"minimiser:{name}", slack=10 * tol * max(1, abs(obj), scale ** 2 / t), x=x, **p)
        got_pts.append((x, t, zz))
    # firm non-expansiveness at a common step
    t = float(rng.choice([.3, 1., 4.]))
    P = [(x, np.asarray(op.prox_op(J(x), t))) for x, _, _ in got_pts]
    for x, px in P:
        for y, py in P:
            lhs = np.linalg.norm(px - py) ** 2
            rhs = np.real(np.vdot(px - py, x - y))
            ctx.leq(lhs, rhs, "firmly-non-expansive", slack=10 * tol * max(1, np.linalg.norm(x) ** 2, np.linalg.norm(y) ** 2), fn=name)
    ctx.nontrivial(fn=name, n=n, kinds=str(kinds))


@group("C13", quick=10 * len(PROX), thorough=80 * len(PROX))
def prox(ctx, i):
    run(ctx, i, 1e-8)


@group("C13", quick=3 * len(PROX), thorough=20 * len(PROX), mode="f32")
def prox_f32(ctx, i):
    run(ctx, i, 3e-5)


@group("C13", quick=40, thorough=400)
def owl_stress(ctx, i):
    """Ordered weighted l1: sizes and weight profiles that force long merges (termination matters)."""
    rng = ctx.rng
    n = int(rng.choice([4, 8, 16, 32, 64, 128]))
    l = [lambda: np.sort(rng.uniform(0, 2, n))[::-1], lambda: np.linspace(2, .1, n), lambda: np.full(n, .7),
         lambda: np.r_[np.full(n // 2, 2.), np.full(n - n // 2, .1)], lambda: 1 / np.arange(1, n + 1.)][i % 5]().copy()
    x = point(rng, n, KINDS[i % 5]) * float(rng.choice([.1, 1., 5.]))
    t = float(rng.choice([.2, 1., 3.]))
    op = opt.prox_owl1(J(l))
    z = np.asarray(op.prox_op(J(x), t))
    ctx.close(z, owl_ref(x, t * l), "owl-prox", tol=1e-9, scale=max(1, np.linalg.norm(x)), n=n, profile=i % 5, x=x)
    if n == 16:
        X = x.reshape(4, 4)
        ctx.close(op.prox_op(J(X), t), z.reshape(4, 4), "owl-matrix-shape", tol=1e-9, scale=max(1, np.linalg.norm(x)))
    ctx.nontrivial(n=n, profile=i % 5, kind=KINDS[i % 5], t=t)


# ---------------------------------------------------------------- thresholding rules
def half_ref(x, tau):
    """argmin_z (x-z)^2 + tau*sqrt(|z|) by exact stationary points, on the magnitude."""
    out = np.zeros_like(x)
    for k, v in enumerate(x):
        a = abs(v)
        # 2(z-a) + tau/(2 sqrt z) = 0 with z = s^2:  4 s^3 - 4 a s + tau = 0
        r = np.roots([4., 0., -4 * a, tau])
        cand = [0.] + [float(s.real) ** 2 for s in r if abs(s.imag) < 1e-9 * (1 + abs(s)) and s.real > 0]
        val = [(a - z) ** 2 + tau * np.sqrt(z) for z in cand]
        z = cand[int(np.argmin(val))]
        out[k] = z * (v / a) if a > 0 else 0
    return out


def half_closed(x, tau):
    """The published closed form, independently written, on magnitudes."""
    a = np.abs(x)
    g = 54 ** (1 / 3) / 4 * tau ** (2 / 3)
    keep = (a >= g) & (a > 0)
    aa = np.where(keep, a, 1.)
    phi = np.arccos(np.clip(tau / 8 * (aa / 3) ** -1.5, -1, 1)) if tau > 0 else np.full(a.shape, np.pi / 2)
    return np.where(keep, 2 / 3 * x * (1 + np.cos(2 * np.pi / 3 - 2 / 3 * phi)), 0)


RULES = ["hard", "soft", "half", "hard_p", "soft_p", "half_p", "shrink", "default"]


@group("C13", quick=12 * len(RULES), thorough=100 * len(RULES))
def thresholds(ctx, i):
    rng = ctx.rng
    rule = RULES[i % len(RULES)]
    n = ri(rng, 3, 30)
    kind = ["gauss", "sparse", "wide", "ties", "zero", "onehot"][(i // len(RULES)) % 6]
    x = point(rng, n, kind)
    cp = rule not in ("shrink",) and rng.random() < .35 and kind != "ties"
    if cp:
        x = x + 1j * point(rng, n, kind) * (x != 0)
    tau = float(rng.choice([.05, .3, 1., 2.]))
    perc = float(rng.choice([0, 10, 20, 50, 75, 90, 100]))
    jit = rng.random() < .4
    a = np.abs(x)
    p = dict(rule=rule, kind=kind, n=n, cp=cp, jit=jit)

    def call(name, arg):
        f = getattr(geo, name + ("_jit" if jit else ""))
        return np.asarray(f(J(x), arg))
    if rule.endswith("_p"):
        gam = float(np.percentile(a, perc))
        base = rule[:-2]
        got = call(base + "_threshold_percentile", perc)
        p["perc"] = perc
        tau = {"hard": .5 * gam ** 2, "soft": gam, "half": (4. / 54 ** (1. / 3) * gam) ** 1.5}[base]
        if base == "half":
            ctx.leq(abs(float(geo.gamma_to_tau_half_threshold(gam)) - tau), 1e-10 * max(tau, 1), "gamma-to-tau-half")
        if base == "hard":
            ctx.leq(abs(float(geo.gamma_to_tau_hard_threshold(gam)) - tau), 1e-10 * max(tau, 1), "gamma-to-tau-hard")
    elif rule in ("hard", "soft", "half"):
        base = rule
        got = call(base + "_threshold", tau)
        p["tau"] = tau
    elif rule == "shrink":
        base = "soft"
        got = np.asarray(opt.shrink(J(x), tau))
    else:
        base, tau = "soft", float(np.percentile(a, 20))
        got = np.asarray(sls.default_threshold(0, J(x)))
    thr = {"hard": np.sqrt(2 * tau), "soft": tau, "half": 54 ** (1 / 3) / 4 * tau ** (2 / 3)}[base]
    clear = np.abs(a - thr) > 1e-6 * max(thr, 1e-3) if base != "soft" else np.ones(n, bool)
    want = {"hard": lambda: np.where(a > thr, x, 0), "soft": lambda: soft(x, tau), "half": lambda: half_closed(x, tau)}[base]()
    ctx.ok(got.shape == x.shape, "threshold-shape", **p)
    ctx.finite(got, f"threshold-finite:{rule}", x=x, **p)
    ctx.close(np.where(clear, got, 0), np.where(clear, want, 0), f"threshold:{rule}", tol=1e-8, scale=max(np.linalg.norm(x), 1e-6), x=x, **p)
    if base == "half" and tau > 1e-6 and kind != "wide":
        w2 = half_ref(x, tau)
        ctx.close(np.where(clear, got, 0), np.where(clear, w2, 0), f"threshold-minimiser:{rule}", tol=1e-6, scale=max(np.linalg.norm(x), 1.), x=x, **p)
    ctx.leq(np.max(np.abs(got) - a), 0, "threshold-contracts", slack=1e-9 * (1 + a.max()), **p)
    ctx.nontrivial(**p)


@group("C13", quick=26, thorough=200)
def moreau_identity(ctx, i):
    """x = prox_{t f}(x) + t prox_{f*/t}(x/t): norms against the projection on the dual ball."""
    rng = ctx.rng
    n = ri(rng, 1, 12)
    x = point(rng, n, KINDS[i % len(KINDS)])
    t = float(rng.uniform(.1, 3))
    q = float(rng.choice([.5, 1., 2.]))
    pair = i % 2
    if pair == 0:
        a = np.asarray(opt.prox_l1(q).prox_op(J(x), t))
        b = np.asarray(opt.proj_box(J(-q), J(q))(J(x / t))) * t
    else:
        a = np.asarray(opt.prox_l2(q).prox_op(J(x), t))
        b = np.asarray(opt.proj_l2_ball(q)(J(x / t))) * t
    ctx.close(a + b, x, "moreau-decomposition", tol=1e-8, scale=max(1, np.linalg.norm(x)), pair=pair)
    ctx.nontrivial(pair=pair, n=n, kind=KINDS[i % len(KINDS)])


@group("C13", quick=10, thorough=100)
def plain_inputs(ctx, i):
    """points and weights may be lists or integers"""
    rng = ctx.rng
    n = ri(rng, 2, 7)
    x, w = rng.integers(-6, 7, n), rng.integers(0, 4, n)
    l = np.sort(w)[::-1].copy()
    q, t = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    cases = [("zero", lambda x: opt.prox_zero().prox_op(x, t), (x,)), ("l1", lambda x: opt.prox_l1(q).prox_op(x, t), (x,)),
             ("l1w", lambda x, w: opt.prox_l1(w).prox_op(x, t), (x, w)), ("l2", lambda x: opt.prox_l2(q).prox_op(x, t), (x,)),
             ("l1pos", lambda x: opt.prox_l1_pos(q).prox_op(x, t), (x,)), ("l1posw", lambda x, w: opt.prox_l1_pos(w).prox_op(x, t), (x, w)),
             ("l1ball", lambda x: opt.prox_l1_ball(q).prox_op(x, t), (x,)), ("owl1", lambda x, l: opt.prox_owl1(l).prox_op(x, t), (x, l)),
             ("owl1q", lambda x: opt.prox_owl1(q).prox_op(x, t), (x,)),
             ("values", lambda x, l: tuple(o.func(x) for o in (opt.prox_l1(q), opt.prox_l2(q), opt.prox_l1_pos(q), opt.prox_owl1(l))), (x, l))]
    nm, f, a = cases[i % len(cases)]
    plain.monitor(ctx, nm, f, *a, n=n, q=q, t=t)
    ctx.nontrivial(case=nm, x=str(x), n=n)
