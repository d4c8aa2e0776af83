"""C18: block sparse Bayesian learning (EM, bound optimisation, with and without pruning)."""
import numpy as np
import jax.numpy as jnp
import cr.sparse.block.block as crblock
import cr.sparse.block.bsbl as B
from vh.core import group
from vh.lopcat import rv, ri

J = jnp.asarray
nrm = np.linalg.norm
SOLVERS = ["bsbl_em", "bsbl_bo", "bsbl_bo_np"]


def toeplitz_ar(r, b):
    i = np.arange(b)
    return float(r) ** np.abs(i[:, None] - i[None]) if r else np.eye(b)


def reference(kind, Phi, y, b, o, T):
    """Zhang & Rao's recursions, written block by block.  Yields (mu, gammas, lambda, negative log evidence of the
    hyper-parameters the step STARTED from, smallest distance of a gamma to the pruning threshold)."""
    m, n = Phi.shape
    nb = n // b
    g = np.ones(nb)
    Bm = np.eye(b)
    lam = o.lambda_val
    for _ in range(T):
        act = g > o.prune_gamma if kind != "bsbl_bo_np" else np.ones(nb, bool)
        margin = np.min(np.abs(g - o.prune_gamma) / o.prune_gamma) if kind != "bsbl_bo_np" else 1.
        Sy = lam * np.eye(m)
        for i in np.flatnonzero(act):
            P = Phi[:, i * b:(i + 1) * b]
            Sy = Sy + g[i] * P @ Bm @ P.T
        Si = np.linalg.inv(Sy)
        nll = np.linalg.slogdet(Sy)[1] + y @ Si @ y
        cond = np.linalg.cond(Sy)
        mu = np.zeros((nb, b))
        Sx = np.zeros((nb, b, b))
        for i in np.flatnonzero(act):
            P = Phi[:, i * b:(i + 1) * b]
            S0 = g[i] * Bm
            mu[i] = S0 @ P.T @ Si @ y
            Sx[i] = S0 - S0 @ P.T @ Si @ P @ S0
        M0 = np.zeros((b, b))
        for i in np.flatnonzero(act):
            M0 += (Sx[i] + np.outer(mu[i], mu[i])) / g[i]
        r = 0.
        if b > 1 and o.learn_block_corr:
            r = np.clip(np.mean(np.diag(M0, 1)) / np.mean(np.diag(M0)), -.99, .99)
        Bn = toeplitz_ar(r, b)
        Bi = np.linalg.inv(Bn)
        res = y - Phi @ mu.ravel()
        if o.learn_lambda == 1:
            lamn = (res @ res + sum(np.trace(Phi[:, i * b:(i + 1) * b] @ Sx[i] @ Phi[:, i * b:(i + 1) * b].T)
                                    for i in range(nb))) / m
        elif o.learn_lambda == 2:
            lamn = (res @ res + lam * (b * act.sum() - sum(np.trace(Sx[i] @ Bi) / g[i] for i in np.flatnonzero(act)))) / m
        else:
            lamn = lam
        gn = np.zeros(nb)
        for i in np.flatnonzero(act):
            P = Phi[:, i * b:(i + 1) * b]
            if kind == "bsbl_em":
                gn[i] = np.trace(Bi @ (Sx[i] + np.outer(mu[i], mu[i]))) / b
            else:
                h = P.T @ Si @ y
                gn[i] = g[i] * np.sqrt(h @ Bn @ h) / np.sqrt(np.trace(P.T @ Si @ P @ Bn))
        g, Bm, lam = gn, Bn, lamn
        yield dict(mu=mu, g=g, B=Bm, lam=lam, nll=nll, margin=margin, cond=cond, act=act)


def signal(rng, nb, b, k):
    x = np.zeros((nb, b))
    S = rng.permutation(nb)[:k]
    rho = rng.choice([0., .6, .9])
    for i in S:
        v = np.zeros(b)
        v[0] = rng.normal()
        for j in range(1, b):
            v[j] = rho * v[j - 1] + np.sqrt(1 - rho ** 2) * rng.normal()
        x[i] = v + .5 * np.sign(rng.normal())
    return x.ravel(), S


@group("C18", quick=12, thorough=96)
def recursion(ctx, i):
    """the state after t iterations is the published recursion's, for many problems through one compiled solver"""
    rng = ctx.rng
    kind = SOLVERS[i % 3]
    f = getattr(B, kind + "_jit")
    b, nb, m = [(4, 8, 16), (3, 9, 12), (1, 20, 12), (2, 10, 24)][(i // 3) % 4]
    n = b * nb
    for k in range(14):
        Phi = rv(rng, (m, n)) / np.sqrt(m)
        x, _ = signal(rng, nb, b, ri(rng, 1, 3))
        y = Phi @ x + float(rng.choice([.01, .1])) * rv(rng, (m,))
        o = B.BSBL_Options(learn_block_corr=int(rng.integers(2)), learn_lambda=int(rng.integers(3)),
                           prune_gamma=float(rng.choice([1e-3, 1e-2, .08])), lambda_val=float(rng.choice([1e-2, .1])),
                           max_iters=ri(rng, 1, 12), epsilon=float(rng.choice([1e-12, 1e-12, 1e-3, 2e-2, .1])))
        hist = list(reference(kind, Phi, y, b, o, o.max_iters))
        if max(h["cond"] for h in hist) > 1e9 or min(h["margin"] for h in hist) < 1e-5 or not np.isfinite(hist[-1]["lam"]):
            ctx.count("recursion:ill-conditioned")
            continue
        if min(h["lam"] for h in hist) <= 1e-9 or not hist[-1]["act"].any():
            continue
        p = dict(kind=kind, b=b, nb=nb, m=m, corr=o.learn_block_corr, rule=o.learn_lambda, prune=o.prune_gamma,
                 T=o.max_iters, pruned=int((~hist[-1]["act"]).sum()))
        st = f(J(Phi), J(y), b, options=o)
        ctx.nontrivial(y0=y[0], **p)
        it = int(st.iterations)
        # an early stop is right only where the recursion itself has stopped moving, and it must happen there
        mv = [np.max(np.abs(h["mu"] - (hist[j - 1]["mu"] if j else 0 * h["mu"]))) for j, h in enumerate(hist)]
        eps = max(o.epsilon, 1e-10)
        ok = ctx.ok(it == o.max_iters or 1 <= it < o.max_iters and mv[it - 1] < eps * (1 + 1e-4), "recursion:iterations", got=it, **p)
        if o.epsilon > 1e-6:
            ok = ctx.ok(all(v > eps * (1 - 1e-4) for v in mv[:max(it, 1) - 1]), "recursion:stops-when-still", got=it, eps=eps, **p) and ok
        if 1 <= it <= len(mv):
            ctx.close(st.dmu, mv[it - 1], "recursion:reported-change", tol=1e-5, scale=max(mv[0], 1e-3), **p)
        h = hist[max(1, min(it, o.max_iters)) - 1]
        sc = max(nrm(h["mu"]), 1e-3)
        ctx.close(st.mu_x, h["mu"], "recursion:block-means", tol=1e-5, scale=sc, **p)
        ctx.close(st.x, h["mu"].ravel(), "recursion:solution", tol=1e-5, scale=sc, **p)
        ctx.close(st.gammas, h["g"], "recursion:gammas", tol=1e-5, scale=nrm(h["g"]), **p)
        ctx.close(st.lambda_val, h["lam"], "recursion:noise-variance", tol=1e-5, scale=max(h["lam"], 1e-9), **p)
        ctx.close(st.Sigma0, h["g"][:, None, None] * h["B"], "recursion:prior-covariance", tol=1e-5,
                  scale=nrm(h["g"]) * nrm(h["B"]), **p)
        ctx.close(st.r, y - Phi @ np.asarray(st.x), "recursion:residual", scale=nrm(y), **p)
        ctx.close(st.r_norm_sqr, nrm(y - Phi @ np.asarray(st.x)) ** 2, "recursion:residual-energy", scale=nrm(y) ** 2, **p)
        if not ok:
            return


@group("C18", quick=6, thorough=48)
def evidence(ctx, i):
    """with fixed noise and no correlation learning every EM/MM step raises the marginal likelihood of the hyper-parameters"""
    rng = ctx.rng
    kind = SOLVERS[i % 3]
    f = getattr(B, kind + "_jit")
    b, nb, m = [(3, 8, 12), (1, 16, 10)][(i // 3) % 2]
    n = b * nb
    for _ in range(6):
        Phi = rv(rng, (m, n)) / np.sqrt(m)
        x, _ = signal(rng, nb, b, 2)
        y = Phi @ x + .1 * rv(rng, (m,))
        lam = float(rng.choice([.02, .2]))
        prev = None
        for T in range(1, 14):
            o = B.BSBL_Options(learn_block_corr=0, learn_lambda=0, prune_gamma=0., lambda_val=lam, max_iters=T, epsilon=0.)
            st = f(J(Phi), J(y), b, options=o)
            g = np.asarray(st.gammas)
            ctx.ok(np.all(np.isfinite(g)) and np.all(g >= 0), "evidence:gammas-nonnegative", g=g, kind=kind)
            Sy = lam * np.eye(m)
            for k in range(nb):
                P = Phi[:, k * b:(k + 1) * b]
                Sy = Sy + g[k] * P @ P.T
            L = np.linalg.slogdet(Sy)[1] + y @ np.linalg.solve(Sy, y)
            if prev is not None:
                ctx.leq(L, prev, "evidence:monotone", slack=1e-7 * max(1., abs(prev)), kind=kind, b=b, T=T)
            prev = L
        ctx.nontrivial(kind=kind, b=b, lam=lam, y0=y[0])


@group("C18", quick=9, thorough=72)
def recovery(ctx, i):
    """default option helpers, eager and compiled: clean block sparse signals are recovered, blocks off the support vanish"""
    rng = ctx.rng
    kind = SOLVERS[i % 3]
    rule = (i // 3) % 3
    b = int(rng.choice([2, 4, 5], p=[.2, .4, .4]))
    nb = 12
    n, m = nb * b, int(.6 * nb * b)
    jitted = bool(rng.integers(2))
    f = getattr(B, kind + ("_jit" if jitted else ""))
    mk = B.bsbl_em_options if kind == "bsbl_em" else B.bsbl_bo_options
    Phi = rv(rng, (m, n)) / np.sqrt(m)
    x, S = signal(rng, nb, b, 2)
    y = Phi @ x
    if rule == 1:
        y = y + .02 * nrm(y) / np.sqrt(m) * rv(rng, (m,))
    elif rule == 2:
        y = y + .002 * nrm(y) / np.sqrt(m) * rv(rng, (m,))
    o = mk(y=J(y), learn_lambda=rule)
    p = dict(kind=kind, b=b, rule=rule, jitted=jitted)
    d = {"learn_lambda": rule, "epsilon": 1e-8, "max_iters": 800 if kind == "bsbl_em" else 300}
    for k, v in d.items():
        ctx.ok(getattr(o, k) == v, "options:" + k, got=getattr(o, k), want=v, **p)
    o2 = mk(learn_block_corr=0, learn_lambda=2, prune_gamma=.25, lambda_val=.5, max_iters=7, epsilon=.125)
    ctx.ok(tuple(o2) == (0, 2, .25, .5, 7, .125), "options:overrides", got=str(o2), **p)
    st = f(J(Phi), J(y), b, options=o)
    ctx.nontrivial(y0=y[0], **p)
    xs = np.asarray(st.x)
    if not ctx.finite(xs, "recovery:finite", **p):
        return
    ctx.leq(int(st.iterations), o.max_iters, "recovery:budget", **p)
    ctx.close(st.r, y - Phi @ xs, "recovery:residual", scale=nrm(y), **p)
    g = np.asarray(st.gammas)
    big = set(np.argsort(-g)[:2].tolist())
    e = nrm(x.reshape(nb, b)[S], axis=1)
    if e.min() > .4 * e.max() and b > 2:       # comparable energies: away from the local minima small blocks cause
        ctx.leq(nrm(xs - x), (.02, .15, .05)[rule] * nrm(x), "recovery:error", iters=int(st.iterations), **p)
        ctx.ok(big == set(S.tolist()), "recovery:support", got=sorted(big), want=sorted(S.tolist()), **p)
    if kind != "bsbl_bo_np":
        mu = np.asarray(st.mu_x)
        ctx.ok(np.all(mu[g == 0] == 0), "recovery:pruned-blocks-vanish", **p)
    nn, bb = ri(rng, 1, 60), ri(rng, 1, 9)
    s = np.asarray(crblock.start_locations(nn, bb))
    ctx.ok(s.tolist() == list(range(0, nn // bb * bb, bb)), "blocks:starts", n=nn, b=bb, got=s)
    e = np.asarray(crblock.end_locations(nn, bb))
    ctx.ok(e.tolist() == [v + bb - 1 for v in s.tolist()], "blocks:ends", n=nn, b=bb, got=e)


@group("C18", quick=6, thorough=40)
def option_helpers(ctx, i):
    """the helpers keep every option the user gives, fill in the rest, and BSBL-BO's noise guess follows the scale of the data"""
    rng = ctx.rng
    f = [B.bsbl_em_options, B.bsbl_bo_options][i % 2]
    given = dict(learn_block_corr=int(rng.integers(2)), learn_lambda=int(rng.integers(3)), prune_gamma=float(rng.uniform(.001, .1)),
                 lambda_val=float(rng.uniform(.001, .1)), max_iters=ri(rng, 1, 500), epsilon=float(rng.uniform(1e-9, 1e-3)))
    keep = {k: v for k, v in given.items() if rng.random() < .6}
    y = rv(rng, (30,)) * 10. ** rng.uniform(-2, 2)
    o = f(J(y), **keep)
    p = dict(helper=f.__name__, given=sorted(keep))
    for k, v in keep.items():
        ctx.ok(getattr(o, k) == v, "options:kept", option=k, got=getattr(o, k), want=v, **p)
    ctx.ok(o.learn_lambda in (0, 1, 2) and o.learn_block_corr in (0, 1) and o.max_iters >= 1, "options:lawful", got=str(o), **p)
    ctx.ok(0 < float(o.lambda_val) and 0 < float(o.prune_gamma) < 1 and 0 < float(o.epsilon) < 1e-2, "options:positive", got=str(o), **p)
    if "lambda_val" not in keep:
        ctx.leq(float(o.lambda_val), .1 * np.std(y) if f is B.bsbl_bo_options else .01, "options:noise-guess-small", slack=1e-11, **p)
    if f is B.bsbl_bo_options and "lambda_val" not in keep and o.learn_lambda:
        ctx.close(f(J(8 * y), **keep).lambda_val, 8 * o.lambda_val, "options:noise-guess-scales", scale=float(8 * o.lambda_val), **p)
    ctx.nontrivial(y=float(y[0]), **p)
