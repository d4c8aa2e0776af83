"""Shared workloads for the greedy / thresholding pursuit checks.

``solve(name, form, ...)`` calls the real code; ``ref_*`` are independent numpy
models of the published algorithms used as oracles.
"""
import numpy as np
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.dict as crdict
from cr.sparse.pursuit import omp, cosamp, sp, iht, htp, mp
from vh.lopcat import rv, ri, key

J = jnp.asarray
SOLVERS = ["omp", "mp", "cosamp", "sp", "iht", "niht", "htp", "nhtp"]
FORMS = {
    "omp": ["matrix", "matrix_jit", "operator", "multi"],
    "mp": ["matrix", "operator"],
    "cosamp": ["matrix", "matrix_jit", "operator", "operator_jit"],
    "sp": ["matrix", "matrix_jit", "operator", "operator_jit"],
    "iht": ["matrix", "matrix_jit", "operator", "operator_jit"],
    "niht": ["matrix", "matrix_jit", "operator", "operator_jit"],
    "htp": ["matrix", "matrix_jit", "operator", "operator_jit"],
    "nhtp": ["matrix", "matrix_jit", "operator", "operator_jit"],
}
MODS = dict(omp=omp, mp=mp, cosamp=cosamp, sp=sp, iht=iht, niht=iht, htp=htp, nhtp=htp)


def solve(name, form, A, y, K, max_iters=None, rtol=None, step=None):
    """Run the library.  A: numpy matrix (operator forms wrap it) or an Operator."""
    mod = MODS[name]
    y = J(y)
    isop = hasattr(A, "times")
    if form.startswith("operator"):
        Phi = A if isop else lop.matrix(J(A))
    else:
        Phi = J(A)
    kw = {}
    if rtol is not None:
        kw["res_norm_rtol"] = rtol
    if name == "omp":
        if form == "operator":
            return omp.operator_solve(Phi, y, K, **kw)
        if form == "matrix":
            return omp.matrix_solve(Phi, y, K)
        if form == "matrix_jit":
            return omp.matrix_solve_jit(Phi, y, K)
        sol = omp.matrix_solve_multi(Phi, jnp.stack([y, 2 * y], axis=1), K)
        return type(sol)(*[v[0] if hasattr(v, "ndim") and v.ndim else v for v in sol])
    if name == "mp":
        kw["max_iters"] = max_iters if max_iters is not None else 4 * K
        return (mp.solve if form == "operator" else mp.matrix_solve)(Phi, y, **kw)
    if max_iters is not None:
        kw["max_iters"] = max_iters
    if name in ("iht", "niht", "htp", "nhtp"):
        kw["normalized"] = name.startswith("n")
        if step is not None:
            kw["step_size"] = step
    f = getattr(mod, {"matrix": "matrix_solve", "matrix_jit": "matrix_solve_jit", "operator": "operator_solve",
                      "operator_jit": "operator_solve_jit"}[form])
    return f(Phi, y, K, **kw)


def parts(sol):
    """(I, x_I, r, r_norm_sqr, iterations) as numpy, whatever the solution type."""
    return (np.asarray(sol.I), np.asarray(sol.x_I), np.asarray(sol.r), np.asarray(sol.r_norm_sqr), int(np.asarray(sol.iterations)))


def dense_x(sol, n):
    x = np.asarray(sol.x)
    return x


def dictionary(rng, kind=None, m=None, n=None, cp=False):
    """Unit-norm dictionaries of the kinds users build."""
    kinds = ["gaussian", "rademacher", "onb", "two_ortho", "binary", "tall"]
    kind = kind or kinds[ri(rng, 0, len(kinds) - 1)]
    m = m or ri(rng, 16, 40)
    n = n or ri(rng, m, 3 * m)
    if cp:
        A = rv(rng, (m, n), True)
    elif kind == "gaussian":
        A = np.asarray(crdict.gaussian_mtx(key(rng), m, n), dtype=float)
    elif kind == "rademacher":
        A = np.asarray(crdict.rademacher_mtx(key(rng), m, n), dtype=float)
    elif kind == "onb":
        A = np.linalg.qr(rv(rng, (m, m)))[0]
    elif kind == "two_ortho":
        p = 2 ** ri(rng, 4, 5)
        A = np.asarray(crdict.dirac_hadamard_basis(p), dtype=float)
    elif kind == "binary":
        A = np.asarray(crdict.sparse_binary_mtx(key(rng), m, n, d=max(3, m // 4), dense=True), dtype=float)
    else:
        A = rv(rng, (m, ri(rng, max(8, m // 2), m)))
    A = A / np.linalg.norm(A, axis=0)
    # duplicated atoms make the greedy choice ambiguous; nudge them apart
    G = np.abs(A.conj().T @ A) - np.eye(A.shape[1])
    if G.max() > 1 - 1e-6:
        A = A + 1e-2 * rng.normal(size=A.shape)
        A = A / np.linalg.norm(A, axis=0)
    return kind, A


def sparse_signal(rng, n, K, cp=False, flat=False):
    x = np.zeros(n, dtype=complex if cp else float)
    I = rng.choice(n, K, replace=False)
    mag = rng.uniform(1, 2, K) if not flat else np.ones(K)
    sg = rng.choice([-1, 1], K)
    x[I] = mag * sg * (np.exp(2j * np.pi * rng.random(K)) if cp else 1)
    return x, np.sort(I)


def topk(h, K):
    return np.argsort(np.abs(h), kind="stable")[:-K - 1:-1]


def gap_ok(h, K, tol=1e-7):
    """The top-K set of |h| is unambiguous."""
    a = np.sort(np.abs(h))[::-1]
    if K >= len(a):
        return True
    return a[K - 1] - a[K] > tol * max(a[0], 1e-300)


class Ambiguous(Exception):
    pass


def sel(h, K, tol=1e-7):
    if not gap_ok(h, K, tol):
        raise Ambiguous
    return topk(h, K)


def lsq(A, y):
    return np.linalg.lstsq(A, y, rcond=None)[0]


# ---- reference models; each yields (I, x_I, r) after iterations 1, 2, ... ----
def ref_omp(A, y):
    I = []
    r = y
    while True:
        h = A.conj().T @ r
        i = sel(h, 1)[0]
        I.append(int(i))
        x = lsq(A[:, I], y)
        r = y - A[:, I] @ x
        yield np.array(I), x, r


def ref_mp(A, y):
    x = np.zeros(A.shape[1])
    r = y.copy()
    while True:
        h = A.T @ r
        i = sel(h, 1)[0]
        x = x.copy()
        x[i] += h[i]
        r = r - h[i] * A[:, i]
        yield None, x, r


def ref_cosamp(A, y, K):
    I = np.array([], dtype=int)
    r = y
    while True:
        h = A.conj().T @ r
        h[I] = 0
        J3 = np.concatenate([I, sel(h, 3 * K if len(I) == 0 else 2 * K)])
        z = lsq(A[:, J3], y)
        k = sel(z, K)
        I, x = J3[k], z[k]
        r = y - A[:, I] @ x
        yield I, x, r


def ref_sp(A, y, K):
    I = sel(A.conj().T @ y, K)
    x = lsq(A[:, I], y)
    r = y - A[:, I] @ x
    while True:
        yield I, x, r
        h = A.conj().T @ r
        h[I] = 0
        J2 = np.concatenate([I, sel(h, K)])
        z = lsq(A[:, J2], y)
        I = J2[sel(z, K)]
        x = lsq(A[:, I], y)
        r = y - A[:, I] @ x


def ref_iht(A, y, K, mu, pursuit=False):
    """mu: fixed step, or None for the normalised step ||h_I||^2/||A_I h_I||^2 on the current support
    (initially the K best matches).  pursuit=True -> HTP (least squares on the support from the 2nd iteration)."""
    fixed, I = mu, None
    x = np.zeros(A.shape[1])
    r = y
    it = 0
    while True:
        h = A.T @ r
        if fixed is None:
            S = sel(h, K) if I is None else I
            mu = (h[S] @ h[S]) / np.sum((A[:, S] @ h[S]) ** 2)
        u = x + mu * h
        I = sel(u, K)
        it += 1
        x = np.zeros(A.shape[1])
        x[I] = lsq(A[:, I], y) if (pursuit and it > 1) else u[I]
        r = y - A @ x
        yield I, x[I], r


def reference(name, A, y, K, mu=None):
    if name == "omp":
        return ref_omp(A, y)
    if name == "mp":
        return ref_mp(A, y)
    if name == "cosamp":
        return ref_cosamp(A, y, K)
    if name == "sp":
        return ref_sp(A, y, K)
    return ref_iht(A, y, K, mu, pursuit=name.endswith("htp"))
