"""C27: what solvers do to the operators they are given (an operator-boundary sanitizer)."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.sls as sls
import cr.sparse.sls.svd as crsvd
import cr.sparse.fom as fom
import cr.sparse.cvx.spgl1 as spgl1
import cr.sparse.cvx.l1ls as l1ls
import cr.sparse.cvx.adm.yall1 as yall1
from cr.sparse.opt import cg, pcg
from cr.sparse.pursuit import htp, iht, sp, cosamp, omp, mp
from vh.core import group
from vh.lopcat import rv, ri, key

J = jnp.asarray
nrm = np.linalg.norm


class Spy:
    """A dense operator that records every concrete array it is applied to."""

    def __init__(self, A):
        self.nt, self.ntr, self.bad, self.scale = 0, 0, [], 0.
        self.shape = A.shape
        self.cplx = np.iscomplexobj(A)
        self.seen = set()
        A = J(A)

        def times(x):
            jax.debug.callback(self.see, 0, x)
            return A @ x

        def trans(y):
            jax.debug.callback(self.see, 1, y)
            return A.conj().T @ y
        self.op = lop.Operator(times=times, trans=trans, shape=A.shape, real=not self.cplx)

    def see(self, which, v):
        v = np.asarray(v)
        if int(which) == 0:
            self.nt += 1
        else:
            self.ntr += 1
        want = self.shape[1] if int(which) == 0 else self.shape[0]
        if v.shape[:1] != (want,):
            self.bad.append(("shape", int(which), v.shape))
        if not np.all(np.isfinite(v)):
            self.bad.append(("not-finite", int(which), int(np.sum(~np.isfinite(v)))))
        if not np.issubdtype(v.dtype, np.inexact) or v.dtype.itemsize < 8:
            self.bad.append(("dtype", int(which), str(v.dtype)))
        if np.iscomplexobj(v) and not self.cplx:
            self.bad.append(("complex-into-real-problem", int(which), str(v.dtype)))
        self.seen.add(which_hash(which, v))


def which_hash(which, v):
    return int(which), v.tobytes()[:64]


def problem(rng, kind, tight=False, cplx=False):
    m, n, K = ri(rng, 8, 14), ri(rng, 16, 30), ri(rng, 1, 3)
    A = rv(rng, (m, n), cplx)
    A = np.linalg.qr(A.conj().T)[0].conj().T if tight else A / nrm(A, axis=0)
    x = np.zeros(n, A.dtype)
    x[rng.permutation(n)[:K]] = rv(rng, (K,), cplx) + (2 if not cplx else 2j)
    b = A @ x
    if kind == "noisy":
        b = b + .05 * nrm(b) * rv(rng, (m,), cplx) / np.sqrt(m)
    elif kind == "tiny":
        b = 1e-7 * b
    elif kind == "huge":
        b = 1e7 * b
    elif kind == "noise-only":
        b = rv(rng, (m,), cplx)
    elif kind == "zero":
        b = 0 * b
    elif kind == "one-atom":
        b = A[:, ri(rng, 0, n - 1)] * 3.
    return A, x, b, K


DATA = ["sparse", "noisy", "tiny", "huge", "noise-only", "one-atom", "zero"]
# solver -> (call(T, A, b, K, x0), counts reported, zero data accepted, complex accepted, tight rows needed)
S = {
    "lsqr": (lambda T, A, b, K, x0, q: sls.lsqr(T, b, x0, max_iters=q), True, True, True, False),
    "lsqr-damped": (lambda T, A, b, K, x0, q: sls.lsqr(T, b, x0, damp=.3, max_iters=q), True, True, False, False),
    "ista": (lambda T, A, b, K, x0, q: sls.ista(T, b, x0, .1, lambda i, r: jnp.sign(r) * jnp.maximum(jnp.abs(r) - .01, 0), max_iters=q), False, True, False, False),
    "fista": (lambda T, A, b, K, x0, q: sls.fista(T, b, x0, .1, lambda i, r: jnp.sign(r) * jnp.maximum(jnp.abs(r) - .01, 0), max_iters=q), False, True, False, False),
    "yall1-bp": (lambda T, A, b, K, x0, q: yall1.solve(T, b, max_iters=40 * q, jit=False), True, True, False, True),
    "yall1-l1l2": (lambda T, A, b, K, x0, q: yall1.solve(T, b, rho=1e-3 + .1 * jnp.abs(b).max(), max_iters=40 * q, jit=False), True, True, False, True),
    "yall1-l1l2con": (lambda T, A, b, K, x0, q: yall1.solve(T, b, delta=.1 * float(jnp.linalg.norm(b)) + 1e-9, x0=x0, max_iters=40 * q, jit=False), True, False, False, True),
    "yall1-nonneg": (lambda T, A, b, K, x0, q: yall1.solve(T, b, rho=1e-3 + .1 * jnp.abs(b).max(), nonneg=True, max_iters=40 * q, jit=False), True, True, False, True),
    "l1ls": (lambda T, A, b, K, x0, q: l1ls.solve(T, b, 1e-12 + .1 * float(np.abs(A.T @ np.asarray(b)).max()), max_iters=q), True, False, False, False),
    "spgl1-lasso": (lambda T, A, b, K, x0, q: spgl1.solve_lasso(T, b, .8 * float(jnp.linalg.norm(b)) + 1e-9, options=spgl1.SPGL1Options(max_iters=5 * q)), True, False, True, False),
    "spgl1-bpic": (lambda T, A, b, K, x0, q: spgl1.solve_bpic(T, b, .1 * float(jnp.linalg.norm(b)), options=spgl1.SPGL1Options(max_iters=5 * q)), True, False, True, False),
    "spgl1-bp": (lambda T, A, b, K, x0, q: spgl1.solve_bp(T, b, options=spgl1.SPGL1Options(max_iters=5 * q)), True, False, True, False),
    "omp": (lambda T, A, b, K, x0, q: omp.operator_solve(T, b, K), False, True, True, False),
    "cosamp": (lambda T, A, b, K, x0, q: cosamp.operator_solve(T, b, K, max_iters=q), False, True, True, False),
    "sp": (lambda T, A, b, K, x0, q: sp.operator_solve(T, b, K, max_iters=q), False, True, True, False),
    "iht": (lambda T, A, b, K, x0, q: iht.operator_solve(T, b, K, step_size=.3, max_iters=q), False, True, False, False),
    "niht": (lambda T, A, b, K, x0, q: iht.operator_solve(T, b, K, normalized=True, max_iters=q), False, True, False, False),
    "htp": (lambda T, A, b, K, x0, q: htp.operator_solve(T, b, K, step_size=.3, max_iters=q), False, True, False, False),
    "nhtp": (lambda T, A, b, K, x0, q: htp.operator_solve(T, b, K, normalized=True, max_iters=q), False, True, False, False),
    "mp": (lambda T, A, b, K, x0, q: mp.solve(T, b, max_iters=q), False, True, False, False),
    "normest": (lambda T, A, b, K, x0, q: lop.normest(T, max_iters=q), False, True, True, False),
    "lansvd": (lambda T, A, b, K, x0, q: crsvd.lansvd_simple(T, K, b + 1.), False, True, False, False),
    "l1rls": (lambda T, A, b, K, x0, q: fom.l1rls(T, b, .1, x0), False, True, False, False),
    "fom-lasso": (lambda T, A, b, K, x0, q: fom.lasso(T, b, 1. + .1 * float(jnp.linalg.norm(b)), x0), False, True, False, False),
    "owl1rls": (lambda T, A, b, K, x0, q: fom.owl1rls(T, b, J(np.linspace(.2, .1, A.shape[1])), x0), False, True, False, False),
}
NAMES = list(S)


@group("C27", quick=3 * len(NAMES), thorough=40 * len(NAMES))
def boundary(ctx, i):
    rng = ctx.rng
    nm = NAMES[i % len(NAMES)]
    f, counted, zero_ok, cplx_ok, tight = S[nm]
    kind = DATA[(i // len(NAMES) + i % len(NAMES)) % len(DATA)]
    if kind == "zero" and not zero_ok:
        kind = "sparse"
    if kind == "zero" and nm in ("lansvd", "normest"):
        kind = "noise-only"
    cplx = cplx_ok and bool(rng.integers(2))
    A, x, b, K = problem(rng, kind, tight, cplx)
    q = ri(rng, 1, 12)
    x0 = np.zeros(A.shape[1], A.dtype) if rng.random() < .6 else rv(rng, (A.shape[1],), cplx) * nrm(b)
    spy = Spy(A)
    sol = f(spy.op, A, J(b), K, J(x0), q)
    sol = jax.block_until_ready(sol)
    jax.effects_barrier()
    p = dict(solver=nm, kind=kind, m=A.shape[0], n=A.shape[1], K=K, q=q, cplx=cplx, times=spy.nt, trans=spy.ntr)
    for b_ in spy.bad[:1]:
        ctx.ok(False, "boundary:" + b_[0], which=["times", "trans"][b_[1]], what=str(b_[2]), **p)
    ctx.count("boundary:applications", spy.nt + spy.ntr)
    if kind != "zero":
        ctx.leq(1, spy.nt + spy.ntr, "boundary:observed", **p)
    if counted:
        ctx.ok(int(sol.n_times) == spy.nt, "boundary:forward-count", reported=int(sol.n_times), **p)
        ctx.ok(int(sol.n_trans) == spy.ntr, "boundary:adjoint-count", reported=int(sol.n_trans), **p)
    ctx.nontrivial(b=complex(b[0]), **p)


DEG = [(nm, k) for nm in NAMES if S[nm][2] and nm not in ("lansvd", "normest") for k in ("zero-data", "exact-start")
       if k == "zero-data" or nm in ("lsqr", "lsqr-damped", "ista", "fista", "l1rls", "fom-lasso", "owl1rls")]


@group("C27", quick=len(DEG), thorough=4 * len(DEG))
def degenerate(ctx, i):
    """no data at all, or a start that already fits the data: divisions by vanishing norms must not reach the operator"""
    rng = ctx.rng
    nm, k = DEG[i % len(DEG)]
    f, counted, _, _, tight = S[nm]
    A, x, b, K = problem(rng, "sparse", tight)
    x0 = 0 * x if k == "zero-data" else np.round(4 * rv(rng, x.shape)) / 4
    if k == "exact-start":
        A = np.round(8 * A) / 8         # products of dyadic numbers: the residual is exactly zero
    b = A @ x0
    spy = Spy(A)
    sol = f(spy.op, A, J(b), K, J(x0), ri(rng, 1, 6))
    jax.block_until_ready(sol)
    jax.effects_barrier()
    p = dict(solver=nm, kind=k, m=A.shape[0], n=A.shape[1], times=spy.nt, trans=spy.ntr)
    ctx.ok(not spy.bad, "degenerate:lawful", bad=str(spy.bad[:2]), **p)
    xs = getattr(sol, "x", None)
    if xs is not None:
        ctx.finite(np.asarray(xs), "degenerate:finite-solution", **p)
    if counted:
        ctx.ok(int(sol.n_times) == spy.nt and int(sol.n_trans) == spy.ntr, "degenerate:counts", got=(int(sol.n_times), int(sol.n_trans)), **p)
    ctx.count("boundary:applications", spy.nt + spy.ntr)
    ctx.nontrivial(a=float(A[0, 0]), **p)


@group("C27", quick=10, thorough=80)
def conjugate_gradients(ctx, i):
    """CG-type solvers apply the system matrix once per iteration (and once for the first residual), to finite vectors only"""
    rng = ctx.rng
    n = ri(rng, 2, 14)
    B = rv(rng, (n + 3, n))
    A = B.T @ B / n + .1 * np.eye(n)
    b = rv(rng, (n,)) * 10. ** rng.uniform(-6, 6)
    x0 = [np.zeros(n), rv(rng, (n,)), np.linalg.solve(A, b)][i % 3]
    if i % 5 == 4:
        b = 0 * b
    spy = Spy(A)
    kw = {}
    if i % 2:
        d = J(1. / np.diag(A))
        kw["M"] = lambda r: d * r
    mi = ri(rng, 0, 2 * n)
    sol = pcg.solve_from(spy.op.times, J(b), J(x0), max_iters=mi, tol=1e-10, **kw)
    jax.block_until_ready(sol)
    jax.effects_barrier()
    p = dict(n=n, mi=mi, M=bool(i % 2), times=spy.nt)
    ctx.ok(not spy.bad, "cg:finite-only", bad=str(spy.bad[:2]), **p)
    ctx.leq(spy.nt, mi + 2, "cg:applications-within-budget", **p)
    ctx.leq(int(sol.iterations), spy.nt, "cg:iterations-are-real", **p)
    ctx.count("boundary:applications", spy.nt)
    ctx.nontrivial(b=b[0], **p)
