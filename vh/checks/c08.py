"""C08: matrix / operator / compiled forms of a pursuit agree, and pursuits commute with the
symmetries of the problem (scaling the signal, permuting or negating atoms, rotating the data)."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
from vh.core import group
from vh.lopcat import rv, ri, key
from vh.pursuitlib import SOLVERS, FORMS, solve, parts, dictionary, sparse_signal

J = jnp.asarray


def problem(ctx, name):
    rng = ctx.rng
    kind, A = dictionary(rng)
    m, n = A.shape
    if name not in ("omp", "mp") and rng.random() < .4:
        A = A * rng.uniform(.5, 2, n)
    K = ri(rng, 1, max(1, min(m // 5, n // 5, 5)))
    x, S = sparse_signal(rng, n, K)
    y = A @ x + rng.uniform(.05, .3) * rv(rng, (m,))       # noise: no ties, no rounding-noise iterations
    mu = float(rng.uniform(.5, .98) / np.linalg.norm(A, 2) ** 2) if name in ("iht", "htp") else None
    # few iterations: below the support-stability rule, well before limit cycles amplify rounding
    mi = {"omp": None, "mp": ri(rng, 2, 6), "nhtp": 2}.get(name, ri(rng, 1, max(1, min(4, 3 * K - 1))))
    return kind, A, y, K, mu, mi


def run(ctx, name, form, A, y, K, mi, mu, rtol=1e-9):
    sol = solve(name, form, A, y, K, max_iters=mi, rtol=rtol, step=mu)
    I, xI, r, r2, it = parts(sol)
    x = np.zeros(A.shape[1])
    x[I] = xI
    return x, set(I.tolist()) if name != "mp" else None, r, float(r2), it


def same(ctx, key_, a, b, scale, **p):
    xa, Ia, ra, r2a, ita = a
    xb, Ib, rb, r2b, itb = b
    ctx.ok(Ia == Ib, key_ + "-support", a=str(Ia), b=str(Ib), **p)
    ctx.close(xa, xb, key_ + "-coefficients", tol=1e-6, scale=max(np.linalg.norm(xb), 1e-12), **p)
    ctx.close(ra, rb, key_ + "-residual", tol=1e-6, scale=scale, **p)
    ctx.close(r2a, r2b, key_ + "-residual-energy", tol=1e-6, scale=scale ** 2, **p)
    ctx.ok(ita == itb, key_ + "-iterations", a=ita, b=itb, **p)


@group("C08", quick=6 * len(SOLVERS), thorough=60 * len(SOLVERS))
def forms(ctx, i):
    name = SOLVERS[i % len(SOLVERS)]
    kind, A, y, K, mu, mi = problem(ctx, name)
    base = run(ctx, name, "matrix", A, y, K, mi, mu)
    p = dict(solver=name, kind=kind, shape=str(A.shape), K=K, mi=mi)
    for f in FORMS[name][1:]:
        same(ctx, "form", run(ctx, name, f, A, y, K, mi, mu), base, np.linalg.norm(y), form=f, **p)
    ctx.nontrivial(**p)


@group("C08", quick=8 * len(SOLVERS), thorough=60 * len(SOLVERS))
def symmetries(ctx, i):
    rng = ctx.rng
    name = SOLVERS[i % len(SOLVERS)]
    sym = (i // len(SOLVERS)) % 4
    kind, A, y, K, mu, mi = problem(ctx, name)
    m, n = A.shape
    forms_ = [f for f in FORMS[name]]
    f = forms_[ri(rng, 0, len(forms_) - 1)]
    base = run(ctx, name, f, A, y, K, mi, mu)
    p = dict(solver=name, form=f, kind=kind, shape=str(A.shape), K=K, mi=mi, sym=["scale", "permute", "negate", "rotate"][sym])
    x, I, r, r2, it = base
    ny = np.linalg.norm(y)
    if sym == 0:
        c = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 4))
        xs, Is, rs, r2s, its = run(ctx, name, f, A, c * y, K, mi, mu)
        same(ctx, "scale", (xs / c, Is, rs / c, r2s / c ** 2, its), base, ny, c=c, **p)
    elif sym == 1:
        perm = rng.permutation(n)          # new column j is old column perm[j]
        xs, Is, rs, r2s, its = run(ctx, name, f, A[:, perm], y, K, mi, mu)
        xb = np.zeros(n)
        xb[perm] = xs
        Ib = None if Is is None else set(perm[list(Is)].tolist())
        same(ctx, "permute", (xb, Ib, rs, r2s, its), base, ny, **p)
    elif sym == 2:
        s = rng.choice([-1., 1.], n)
        xs, Is, rs, r2s, its = run(ctx, name, f, A * s, y, K, mi, mu)
        same(ctx, "negate", (xs * s, Is, rs, r2s, its), base, ny, **p)
    else:
        Q = np.linalg.qr(rv(rng, (m, m)))[0]
        xs, Is, rs, r2s, its = run(ctx, name, f, Q @ A, Q @ y, K, mi, mu)
        same(ctx, "rotate", (xs, Is, Q.T @ rs, r2s, its), base, ny, **p)
    ctx.nontrivial(**p)


@group("C08", quick=24, thorough=160)
def structured(ctx, i):
    """A structured sensing operator behaves exactly like its dense matrix."""
    rng = ctx.rng
    name = ["omp", "cosamp", "sp", "iht", "htp", "mp", "niht", "nhtp"][i % 8]
    k = (i // 8) % 3
    if k == 0:
        n = ri(rng, 24, 48)
        I = np.sort(rng.choice(n, ri(rng, n // 2, n), replace=False))
        op = lop.compose(lop.restriction(n, J(I)), lop.cosine_basis(n))
    elif k == 1:
        n = ri(rng, 24, 48)
        op = lop.compose(lop.gaussian_dict(key(rng), n // 2 + 4, n), lop.flipud(n))
    else:
        n = 32
        op = lop.hcat(lop.identity(n), lop.cosine_basis(n))
    A = np.asarray(lop.to_matrix(op))
    if name in ("omp", "mp"):
        nr = np.linalg.norm(A, axis=0)
        if np.abs(nr - 1).max() > 1e-6:
            op = lop.compose(op, lop.diagonal(J(1 / nr)))
            A = A / nr
    K = ri(rng, 2, 4)
    x, S = sparse_signal(rng, A.shape[1], K)
    y = A @ x + .1 * rv(rng, (A.shape[0],))
    mu = float(.9 / np.linalg.norm(A, 2) ** 2) if name in ("iht", "htp") else None
    mi = {"omp": None, "nhtp": 2}.get(name, 3)
    a = solve(name, "operator", op, y, K, max_iters=mi, rtol=1e-9, step=mu)
    b = run(ctx, name, "matrix", A, y, K, mi, mu)
    I, xI, r, r2, it = parts(a)
    xa = np.zeros(A.shape[1])
    xa[I] = xI
    same(ctx, "structured", (xa, set(I.tolist()) if name != "mp" else None, r, float(r2), it), b, np.linalg.norm(y), solver=name, k=k)
    ctx.nontrivial(solver=name, k=k, shape=A.shape, K=K)


DENSE = [s for s in SOLVERS if s != "omp"]


@group("C08", quick=2 * len(DENSE), thorough=12 * len(DENSE))
def forms_dense(ctx, i):
    """many small, crowded problems through one compiled solver of each form"""
    rng = ctx.rng
    name = DENSE[i % len(DENSE)]
    m, n, K = [(8, 14, 2), (9, 12, 3), (7, 20, 2)][(i // len(DENSE) + i) % 3]
    t = ri(rng, 2, min(3 * K - 1, 5))
    if name.endswith("htp"):
        K, t = 2, min(t, 2 if name == "nhtp" else t)
    mu = .3 if name in ("iht", "htp") else None

    def compiled(form):
        return jax.jit(lambda A, y: tuple(solve(name, form, A if form == "matrix" else lop.matrix(A), y, K, max_iters=t, rtol=0., step=mu)))
    fm, fo = compiled("matrix"), compiled("operator")
    for j in range(80):
        A = rv(rng, (m, n))
        A /= np.linalg.norm(A, axis=0)
        y = rv(rng, (m,))
        p = dict(solver=name, K=K, t=t, j=j, shape=f"{m}x{n}")
        a, b = [[np.asarray(v) for v in f(J(A), J(y))] for f in (fm, fo)]
        # a tie in the selection may be broken either way: judge only data on which a perturbation changes nothing
        c = [np.asarray(v) for v in fm(J(A * (1 + 1e-9 * rv(rng, (m, n)))), J(y))]
        if name == "mp":
            if not np.allclose(a[0], c[0], atol=1e-5):
                continue
            ctx.close(b[0], a[0], "forms-dense:coefficients", tol=1e-6, **p)
        else:
            if set(a[1].tolist()) != set(c[1].tolist()) or np.linalg.cond(A[:, a[1]]) > 1e4:
                continue
            xa, xb, xc = np.zeros(n), np.zeros(n), np.zeros(n)
            xa[a[1]], xb[b[1]], xc[c[1]] = a[0], b[0], c[0]
            if not np.allclose(xa, xc, atol=1e-5):
                continue
            ctx.ok(set(a[1].tolist()) == set(b[1].tolist()), "forms-dense:support", a=a[1], b=b[1], **p)
            ctx.close(xb, xa, "forms-dense:coefficients", tol=1e-5, **p)
            ctx.close(b[2], a[2], "forms-dense:residual", tol=1e-5, scale=np.linalg.norm(y), **p)
    ctx.nontrivial(solver=name, K=K, t=t, shape=f"{m}x{n}")
