"""C06: what a pursuit solver returns is internally consistent and matches the problem it was given."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
from vh.core import group
from vh.lopcat import rv, ri, key
from vh.pursuitlib import SOLVERS, FORMS, solve, parts, dictionary, sparse_signal

J = jnp.asarray
COMBOS = [(s, f) for s in SOLVERS for f in FORMS[s]]


def monitor(ctx, name, form, A, y, K, sol, max_iters=None, **p):
    n = A.shape[1]
    p = dict(solver=name, form=form, shape=str(A.shape), K=K, **p)
    I, xI, r, r2, it = parts(sol)
    fin = np.all(np.isfinite(xI)) and np.all(np.isfinite(r)) and np.isfinite(r2)
    ctx.ok(fin, "finite", xI=xI, r2=r2, **p)
    if not fin:
        return
    ctx.ok(I.ndim == 1 and xI.shape == I.shape, "support-shape", I=str(I.shape), xI=str(xI.shape), **p)
    ctx.ok(np.all((I >= 0) & (I < n)), "support-in-range", I=I, **p)
    ctx.ok(len(set(I.tolist())) == len(I), "support-distinct", I=I, **p)
    if name == "mp":
        ctx.ok(len(I) <= it, "support-size", I=I, it=it, **p)
    elif name == "omp":
        ctx.ok(len(I) <= K and len(I) == it, "support-size", I=I, it=it, **p)
    else:
        ctx.ok(len(I) == K, "support-size", I=I, **p)
    scale = np.linalg.norm(y) + np.linalg.norm(A[:, I]) * np.linalg.norm(xI) + 1e-300
    tol = 1e-9 if ctx.x64 else 1e-4
    ctx.close(r, y - A[:, I] @ xI, "residual-definition", scale=scale, tol=tol, **p)
    ctx.close(r2, np.linalg.norm(r) ** 2, "residual-energy", scale=scale ** 2, tol=tol, **p)
    ctx.ok(np.isrealobj(r2) and float(r2) >= 0, "residual-energy-nonnegative", r2=r2, **p)
    ctx.ok(int(sol.length) == n, "length", got=int(sol.length), **p)
    x = np.asarray(sol.x)
    want = np.zeros(n, dtype=xI.dtype)
    want[I] = xI
    ctx.close(x, want, "dense-solution", tol=tol, scale=max(np.linalg.norm(xI), 1e-12), **p)
    ctx.ok(1 <= it or name == "mp", "iterations-positive", it=it, **p)
    if max_iters is not None:
        ctx.ok(it <= max_iters, "iterations-budget", it=it, max_iters=max_iters, **p)


def run(ctx, i):
    rng = ctx.rng
    name, form = COMBOS[i % len(COMBOS)]
    cp = name in ("omp", "cosamp", "sp") and form.startswith("operator") and rng.random() < .35
    kind, A = dictionary(rng, cp=cp)
    m, n = A.shape
    if name not in ("omp", "mp") and rng.random() < .4:     # thresholding solvers also take unnormalised atoms
        A = A * rng.uniform(.3, 3, n)
    Kmax = max(1, min(m // 4, n // 4, 6))
    K = ri(rng, 1, Kmax)
    x, S = sparse_signal(rng, n, K, cp)
    y = A @ x
    regime = rng.choice(["exact", "noisy", "dense", "tiny", "huge"])
    if regime == "noisy":
        y = y + rng.uniform(.01, .3) * np.linalg.norm(y) / np.sqrt(m) * rv(rng, (m,), cp)
    elif regime == "dense":                                 # nothing sparse about it
        y = rv(rng, (m,), cp)
    elif regime == "tiny":
        y = y * 1e-6
    elif regime == "huge":
        y = y * 1e6
    if name == "omp" and regime != "noisy" and regime != "dense":
        Kr = K       # more iterations than the true sparsity leave the domain (residual is rounding noise)
    else:
        Kr = max(1, K + ri(rng, -1, 1)) if name == "omp" else K
    mi = None if name == "omp" else int(rng.choice([1, 2, 3, 5, 10, 25]))
    rt = None if rng.random() < .5 else float(10 ** rng.uniform(-6, -1))
    kw = {}
    if name in ("iht", "htp") and rng.random() < .7:
        kw["step"] = float(rng.uniform(.3, .98) / np.linalg.norm(A, 2) ** 2)
    sol = solve(name, form, A, y, Kr, max_iters=mi, rtol=rt, **kw)
    if name in ("iht", "htp") and "step" not in kw and not np.all(np.isfinite(np.asarray(sol.x_I))):
        ctx.skip("default heuristic step diverged")
    monitor(ctx, name, form, A, y, Kr, sol, mi, kind=kind, regime=str(regime), rtol=rt, cp=cp)
    ctx.nontrivial(solver=name, form=form, kind=kind, shape=A.shape, K=Kr, regime=str(regime), mi=mi, rtol=rt)


@group("C06", quick=5 * len(COMBOS), thorough=60 * len(COMBOS))
def solutions(ctx, i):
    run(ctx, i)


@group("C06", quick=len(COMBOS), thorough=8 * len(COMBOS), mode="f32")
def solutions_f32(ctx, i):
    run(ctx, i)


@group("C06", quick=24, thorough=120)
def zero_signal(ctx, i):
    """A zero measurement has the zero representation."""
    rng = ctx.rng
    combos = [c for c in COMBOS if c[0] in ("mp", "cosamp", "sp") or c == ("omp", "operator")]
    name, form = combos[i % len(combos)]
    kind, A = dictionary(rng)
    K = ri(rng, 1, 3)
    y = np.zeros(A.shape[0])
    sol = solve(name, form, A, y, K)
    I, xI, r, r2, it = parts(sol)
    ctx.close(xI, np.zeros_like(xI), "zero-coefficients", tol=1e-12, scale=1, solver=name, form=form)
    ctx.close(r, y, "zero-residual", tol=1e-12, scale=1, solver=name, form=form)
    ctx.close(r2, 0., "zero-residual-energy", tol=1e-12, scale=1, solver=name, form=form)
    ctx.nontrivial(solver=name, form=form, shape=A.shape, K=K)


@group("C06", quick=12, thorough=60)
def batch(ctx, i):
    """Batch OMP: every signal's slot solves that signal's problem."""
    from cr.sparse.pursuit import omp
    rng = ctx.rng
    kind, A = dictionary(rng, kind=["gaussian", "rademacher", "two_ortho"][i % 3])
    m, n = A.shape
    K, S = ri(rng, 1, 4), ri(rng, 2, 5)
    X = np.stack([sparse_signal(rng, n, K)[0] for _ in range(S)], axis=1)
    Y = A @ X + .05 * rv(rng, (m, S))
    sol = omp.matrix_solve_multi(J(A), J(Y), K)
    ctx.ok(np.asarray(sol.I).shape == (S, K) and np.asarray(sol.x_I).shape == (S, K), "batch-shape")
    for s in range(S):
        one = omp.matrix_solve(J(A), J(Y[:, s]), K)
        ctx.ok(np.array_equal(np.asarray(sol.I)[s], np.asarray(one.I)), "batch-support", s=s)
        ctx.close(np.asarray(sol.x_I)[s], np.asarray(one.x_I), "batch-values", tol=1e-8)
        ctx.close(np.asarray(sol.r)[s], Y[:, s] - A[:, np.asarray(sol.I)[s]] @ np.asarray(sol.x_I)[s], "batch-residual",
                  scale=np.linalg.norm(Y[:, s]), tol=1e-9)
    ctx.nontrivial(kind=kind, shape=A.shape, K=K, S=S)
