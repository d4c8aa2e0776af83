"""C07: pursuit solvers perform their published algorithm: greedy choices, least squares on the
support, monotone/conserved residual energy, exact recovery where the algorithm recovers."""
import itertools

import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.dict as crdict
from vh.core import group
from vh.lopcat import rv, ri, key
from vh.pursuitlib import (SOLVERS, FORMS, solve, parts, dictionary, sparse_signal, reference, Ambiguous, lsq, topk)

J = jnp.asarray
COMBOS = [(s, f) for s in SOLVERS for f in FORMS[s]]


def problem(ctx, name, form, allow_cp=True, kinds=None):
    rng = ctx.rng
    cp = allow_cp and name in ("omp", "cosamp", "sp") and form.startswith("operator") and rng.random() < .35
    kind, A = dictionary(rng, kind=kinds[ri(rng, 0, len(kinds) - 1)] if kinds else None, cp=cp)
    m, n = A.shape
    if name not in ("omp", "mp") and rng.random() < .4:
        A = A * rng.uniform(.3, 3, n)
    K = ri(rng, 2, max(2, min(m // 4, n // 4, 5)))
    x, S = sparse_signal(rng, n, K, cp)
    y = A @ x + rng.uniform(.02, .3) * rv(rng, (m,), cp)
    return kind, A, y, K, x, S, cp


@group("C07", quick=4 * len(COMBOS), thorough=40 * len(COMBOS))
def trace(ctx, i):
    """The iterate after t iterations is the published algorithm's iterate after t iterations."""
    rng = ctx.rng
    name, form = COMBOS[i % len(COMBOS)]
    kind, A, y, K, x, S, cp = problem(ctx, name, form)
    n = A.shape[1]
    mu = float(rng.uniform(.3, .98) / np.linalg.norm(A, 2) ** 2) if name in ("iht", "htp") else None
    tmax = K if name == "omp" else (8 if name == "mp" else (2 if name == "nhtp" else 3 * K - 1))
    t = 1 + (i // len(COMBOS)) % min(tmax, 5) if ctx.tier == "quick" else ri(rng, 1, tmax)
    try:
        for I, xr, r in itertools.islice(reference(name, A, y, K, mu), t):
            pass
    except Ambiguous:
        ctx.skip("tie in the greedy selection")
    sol = solve(name, form, A, y, t if name == "omp" else K, max_iters=t, rtol=0., step=mu)
    gI, gx, gr, g2, it = parts(sol)
    p = dict(solver=name, form=form, kind=kind, shape=str(A.shape), K=K, t=t)
    ctx.ok(it == t, "trace-iterations", it=it, **p)
    want = xr if name == "mp" else np.zeros(n, dtype=xr.dtype)
    if name != "mp":
        want[I] = xr
        ctx.ok(set(gI.tolist()) == set(I.tolist()), "trace-support", got=gI, want=I, **p)
    got = np.zeros(n, dtype=gx.dtype)
    got[gI] = gx
    ctx.close(got, want, "trace-coefficients", tol=1e-6, **p)
    ctx.close(gr, r, "trace-residual", tol=1e-6, scale=np.linalg.norm(y), **p)
    ctx.nontrivial(**p)


DENSE = [(s, f) for s, f in COMBOS if not (s == "omp" and f in ("operator", "multi")) and not f.endswith("_jit")]


@group("C07", quick=2 * len(DENSE), thorough=12 * len(DENSE))
def trace_dense(ctx, i):
    """Hundreds of small, crowded problems (supports keep changing) through one compiled solver."""
    rng = ctx.rng
    name, form = DENSE[i % len(DENSE)]
    m, n, K = [(8, 14, 2), (9, 12, 3), (7, 20, 2)][(i // len(DENSE) + i) % 3]
    t = ri(rng, 2, min(3 * K - 1, 5))
    if name == "omp":
        t = K = 4
    if name == "nhtp":
        t = 2
    mu = .3 if name in ("iht", "htp") else None
    if name.endswith("htp"):
        K = min(K, 2)
    f = jax.jit(lambda A, y: tuple(solve(name, form, A if form == "matrix" else lop.matrix(A), y, K, max_iters=t, rtol=0., step=mu))[:5]) \
        if name != "mp" else jax.jit(lambda A, y: tuple(solve(name, form, A if form == "matrix" else lop.matrix(A), y, K, max_iters=t, rtol=0.)))
    amb = 0
    for j in range(150):
        A = rv(rng, (m, n))
        A /= np.linalg.norm(A, axis=0)
        y = rv(rng, (m,))
        try:
            for I, xr, r in itertools.islice(reference(name, A, y, K, mu), t):
                pass
        except Ambiguous:
            amb += 1
            continue
        out = [np.asarray(v) for v in f(J(A), J(y))]
        p = dict(solver=name, form=form, K=K, t=t, j=j, shape=f"{m}x{n}")
        if name == "mp":
            ctx.close(out[0], xr, "dense-coefficients", tol=1e-6, **p)
            continue
        got, want = np.zeros(n), np.zeros(n)
        want[I] = xr
        got[out[1]] = out[0]
        ctx.ok(set(out[1].tolist()) == set(I.tolist()), "dense-support", got=out[1], want=I, **p)
        ctx.close(got, want, "dense-coefficients", tol=1e-5, **p)
        ctx.close(out[2], r, "dense-residual", tol=1e-5, scale=np.linalg.norm(y), **p)
    if amb > 75:
        ctx.skip("mostly ties")
    ctx.nontrivial(solver=name, form=form, K=K, t=t, shape=f"{m}x{n}")


@group("C07", quick=20, thorough=160)
def omp_laws(ctx, i):
    """Orthogonality, nestedness, greedy choice and monotone residual, straight from the definition."""
    rng = ctx.rng
    form = ["matrix", "operator", "matrix_jit"][i % 3]
    kind, A, y, K, x, S, cp = problem(ctx, "omp", form)
    prev, pn = np.array([], dtype=int), np.linalg.norm(y)
    r = y
    for k in range(1, K + 1):
        sol = solve("omp", form, A, y, k, rtol=0.)
        I, xI, rn, r2, it = parts(sol)
        ctx.ok(np.array_equal(I[:k - 1], prev), "omp-nested", I=I, prev=prev, k=k, form=form)
        h = np.abs(A.conj().T @ r)
        ctx.ok(h[I[-1]] >= h.max() * (1 - 1e-7), "omp-greedy", k=k, form=form)
        ctx.leq(np.linalg.norm(A[:, I].conj().T @ rn), 1e-8 * np.linalg.norm(y), "omp-orthogonal", k=k, form=form)
        ctx.leq(np.linalg.norm(rn), pn * (1 + 1e-9), "omp-monotone", k=k, form=form)
        prev, pn, r = I, np.linalg.norm(rn), rn
    ctx.nontrivial(form=form, kind=kind, shape=A.shape, K=K)


@group("C07", quick=16, thorough=120)
def mp_laws(ctx, i):
    """Energy conservation of matching pursuit: ||y||^2 = sum of squared steps + ||r||^2."""
    rng = ctx.rng
    form = ["matrix", "operator"][i % 2]
    kind, A, y, K, x, S, cp = problem(ctx, "mp", form)
    prev_x, prev_r = np.zeros(A.shape[1]), y
    for t in (1, 2, 3, ri(rng, 4, 12)):
        sol = solve("mp", form, A, y, K, max_iters=t, rtol=0.)
        xs, r = np.asarray(sol.x), np.asarray(sol.r)
        ctx.close(float(sol.r_norm_sqr), float(r @ r), "mp-energy-reported", tol=1e-9, scale=float(y @ y), t=t, form=form)
        if t <= 3:
            d = xs - prev_x
            ctx.ok(np.count_nonzero(np.abs(d) > 1e-12) <= 1, "mp-one-atom", t=t, form=form)
            ctx.close(float(r @ r), float(prev_r @ prev_r - d @ d), "mp-energy-conserved", tol=1e-9, scale=float(y @ y), t=t, form=form)
        prev_x, prev_r = xs, r
    ctx.nontrivial(form=form, kind=kind, shape=A.shape)


@group("C07", quick=24, thorough=200)
def least_squares(ctx, i):
    """SP and (after two iterations) HTP return the least squares solution on the reported support;
    pruned solvers return K atoms; IHT with a safe step never increases the residual."""
    rng = ctx.rng
    name = ["sp", "htp", "nhtp", "iht"][i % 4]
    form = FORMS[name][(i // 4) % len(FORMS[name])]
    kind, A, y, K, x, S, cp = problem(ctx, name, form)
    p = dict(solver=name, form=form, kind=kind, shape=str(A.shape), K=K)
    L2 = np.linalg.norm(A, 2) ** 2
    if name == "iht":
        pn = np.linalg.norm(y)
        for t in (1, 2, 4, 9):
            sol = solve(name, form, A, y, K, max_iters=t, rtol=0., step=float(.98 / L2))
            rn = np.linalg.norm(np.asarray(sol.r))
            ctx.leq(rn, pn * (1 + 1e-9), "iht-descent", t=t, **p)
            pn = rn
    else:
        kw = dict(step=float(.9 / L2)) if name == "htp" else {}
        for t in (2, 3, 6):
            sol = solve(name, form, A, y, K, max_iters=t, rtol=0., **kw)
            I, xI, r, r2, it = parts(sol)
            ctx.leq(np.linalg.norm(A[:, I].conj().T @ r), 1e-7 * np.linalg.norm(A[:, I], 2) * np.linalg.norm(y), "ls-orthogonal", t=t, **p)
            ctx.close(xI, lsq(A[:, I], y), "ls-solution", tol=1e-6, t=t, **p)
    ctx.nontrivial(**p)


@group("C07", quick=3 * len(COMBOS), thorough=30 * len(COMBOS))
def recovery(ctx, i):
    """Noise-free sparse signals in a certified regime are recovered with default settings."""
    rng = ctx.rng
    name, form = COMBOS[i % len(COMBOS)]
    mode = (i // len(COMBOS)) % 3
    p = dict(solver=name, form=form)
    if mode == 0:            # orthonormal dictionary: every method must recover
        m = n = ri(rng, 12, 40)
        A = np.linalg.qr(rv(rng, (n, n)))[0]
        K = ri(rng, 1, n // 4)
        x, S = sparse_signal(rng, n, K)
    elif mode == 1:          # one atom, incoherent dictionary
        n2 = 2 ** ri(rng, 4, 6)
        A = np.asarray(crdict.dirac_hadamard_basis(n2) if rng.random() < .5 else crdict.dirac_cosine_basis(n2), dtype=float)
        m, n = A.shape
        K = 1
        x, S = sparse_signal(rng, n, K)
    else:                    # random dictionary + certificate from the reference model
        m, n, K = 48, ri(rng, 64, 128), ri(rng, 2, 4)
        A = rv(rng, (m, n))
        A /= np.linalg.norm(A, axis=0)
        x, S = sparse_signal(rng, n, K)
    y = A @ x
    kw = {}
    mi = None
    if name == "mp":
        mi = 300 if mode else K
    if name in ("iht", "htp"):
        kw["step"] = float(.98 / np.linalg.norm(A, 2) ** 2)
        mi = 400 if name == "iht" else None
    if name == "niht":
        mi = 400
    if mode == 2:            # certificate
        if name in ("omp", "mp"):
            oth = np.setdiff1d(np.arange(n), S)
            if np.abs(np.linalg.pinv(A[:, S]) @ A[:, oth]).sum(axis=0).max() >= .95:
                ctx.skip("exact recovery condition not met")
        else:
            good = False
            try:
                for I, xr, r in itertools.islice(reference(name, A, y, K, kw.get("step")), mi or m):
                    if np.linalg.norm(r) <= 1e-6 * np.linalg.norm(y):
                        good = True
                        break
            except Ambiguous:
                pass
            if not good:
                ctx.skip("the published algorithm does not recover this instance")
    elif name == "iht" and mode == 1:
        # IHT with one atom in a unit-norm dictionary: correlation picks the atom, contraction 1-mu
        pass
    sol = solve(name, form, A, y, K, max_iters=mi, **kw)
    xr = np.asarray(sol.x)
    ctx.leq(np.linalg.norm(xr - x), 2e-3 * np.linalg.norm(x), "exact-recovery", mode=mode, K=K, shape=str(A.shape), **p)
    if name != "mp":
        ctx.ok(set(np.asarray(sol.I).tolist()) == set(S.tolist()), "exact-support", mode=mode, **p)
    if mode == 0 and name in ("omp", "cosamp", "sp"):
        ctx.leq(int(np.asarray(sol.iterations)), max(K, 1), "recovery-fast", mode=mode, **p)
    ctx.nontrivial(mode=mode, shape=A.shape, K=K, **p)


@group("C07", quick=1, thorough=1)
def known_probes(ctx, i):
    rng = np.random.default_rng(3)
    A = rv(rng, (24, 60))
    A /= np.linalg.norm(A, axis=0)
    x, S = sparse_signal(rng, 60, 2)
    sol = solve("iht", "matrix", 20 * A, 20 * A @ x, 2, max_iters=60)
    e = np.linalg.norm(np.asarray(sol.r)) / np.linalg.norm(20 * A @ x)
    ctx.known("iht-default-step", np.isfinite(e) and e < 1,
              "IHT with its default step diverges for dictionaries of norm well above 1: the step is 0.98/||A|| instead of "
              "0.98/||A||^2 (tests/pursuit/*::test_iht need the larger step)")
