"""C09: pursuit solvers stop when (and only when) their stopping rule says so, within the budget,
and report the iterations they performed."""
import numpy as np
import jax
import jax.numpy as jnp
from vh.core import group
from vh.lopcat import rv, ri
from vh.pursuitlib import SOLVERS, FORMS, solve, parts, dictionary, sparse_signal

CAP = ["mp", "cosamp", "sp", "iht", "niht", "htp", "nhtp"]
STABLE = {("cosamp", "operator"), ("cosamp", "operator_jit"), ("sp", "operator"), ("sp", "operator_jit")} | \
    {(s, f) for s in ("htp", "nhtp") for f in FORMS["htp"]}      # also stop when the support settles
COMBOS = [(s, f) for s in CAP for f in FORMS[s] if f in ("matrix", "operator")] + [("omp", "operator")]


def prefix(name, form, A, y, K, T, rtol, mu):
    """Trace observed from outside: final state for budgets 1..T."""
    out = []
    for t in range(1, T + 1):
        if name == "omp":
            sol = solve(name, form, A, y, t, rtol=rtol)
        else:
            sol = solve(name, form, A, y, K, max_iters=t, rtol=rtol, step=mu)
        I, xI, r, r2, it = parts(sol)
        x = np.zeros(A.shape[1], dtype=xI.dtype)
        x[I] = xI
        out.append((it, x, np.linalg.norm(r), I))
    return out


@group("C09", quick=4 * len(COMBOS), thorough=40 * len(COMBOS))
def budgets(ctx, i):
    rng = ctx.rng
    name, form = COMBOS[i % len(COMBOS)]
    kind, A = dictionary(rng)
    m, n = A.shape
    K = ri(rng, 1, max(1, min(m // 5, n // 5, 4)))
    x, S = sparse_signal(rng, n, K)
    noisy = rng.random() < .5
    y = A @ x + (rng.uniform(.02, .2) * rv(rng, (m,)) if noisy else 0)
    ny = np.linalg.norm(y)
    rtol = float(rng.choice([1e-1, 3e-1, 1e-2, 1e-3])) if not noisy else float(rng.choice([.3, .1, .6]))
    mu = float(.98 / np.linalg.norm(A, 2) ** 2) if name in ("iht", "htp") else None
    T = K + 1 if name == "omp" else 6
    tr = prefix(name, form, A, y, K, T, rtol, mu)
    p = dict(solver=name, form=form, kind=kind, shape=str(A.shape), K=K, rtol=rtol, noisy=noisy)
    stopped = None
    for t, (it, xx, rn, I) in enumerate(tr, start=1):
        ctx.ok(it <= t, "budget", it=it, t=t, **p)
        if stopped is None:
            ctx.ok(it == t, "no-early-stop-or-miscount", it=it, t=t, **p)
        else:
            ctx.ok(it == stopped, "stops-when-satisfied", it=it, t=t, stopped=stopped, **p)
            ctx.close(xx, tr[stopped - 1][1], "result-frozen-after-stop", tol=1e-9, scale=max(np.linalg.norm(xx), 1e-9), **p)
        if stopped is None:
            margin = abs(rn - rtol * ny) / ny
            if margin < 1e-6:
                ctx.skip("residual on the threshold")
            if rn <= rtol * ny:
                stopped = t
            elif (name, form) in STABLE and t >= min(3 * K, 20):
                prev = tr[t - 2][3] if t > 1 else np.arange(K)
                if np.array_equal(prev, I):
                    stopped = t
    ctx.count("stop-observed", int(stopped is not None))
    ctx.nontrivial(stop=stopped, **p)


@group("C09", quick=3 * len(COMBOS), thorough=24 * len(COMBOS))
def defaults(ctx, i):
    """Default budget: stops with a small residual, a settled support, or after at most m iterations."""
    rng = ctx.rng
    name, form = COMBOS[i % len(COMBOS)]
    kind, A = dictionary(rng)
    m, n = A.shape
    K = ri(rng, 1, max(1, min(m // 5, n // 5, 4)))
    x, S = sparse_signal(rng, n, K)
    y = A @ x
    if i % 2:
        y = y + .2 * rv(rng, (m,))
    mu = float(.98 / np.linalg.norm(A, 2) ** 2) if name in ("iht", "htp") else None
    sol = solve(name, form, A, y, K, step=mu)
    I, xI, r, r2, it = parts(sol)
    cap = K if name == "omp" else (4 * K if name == "mp" else m)
    p = dict(solver=name, form=form, kind=kind, shape=str(A.shape), K=K)
    ctx.ok(it <= cap, "default-budget", it=it, cap=cap, **p)
    small = np.linalg.norm(r) <= 1.0001e-4 * np.linalg.norm(y)
    if it < cap and (name, form) not in STABLE:
        ctx.ok(small, "stop-means-small-residual", it=it, rel=np.linalg.norm(r) / np.linalg.norm(y), **p)
    if it < cap and (name, form) in STABLE and not small:
        ctx.ok(it >= min(3 * K, 20), "settled-support-only-after-minimum", it=it, **p)
    ctx.nontrivial(**p, it=it)
