"""C03: operator algebra is matrix algebra, for random expression trees over random leaves."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
from vh.core import group
from vh.lopcat import rv, ri

J = jnp.asarray


class G:
    """Generates (operator, matrix, expression) triples; the matrix is pure numpy."""

    def __init__(self, rng, allow_complex):
        self.rng, self.cx = rng, allow_complex

    def pick(self, *opts):
        return opts[self.rng.integers(len(opts))]

    def leaf(self, m, n):
        r = self.rng
        kinds = ["matrix", "matrix"] + (["cmatrix", "cmatrix"] if self.cx else [])
        if m == n:
            kinds += ["identity", "diagonal", "flipud", "cumsum", "scalar", "zero"]
            # the DCT and circulant operators only take real vectors
            kinds += ["cdiag", "fourier"] if self.cx else ["cosine", "circulant"]
        k = self.pick(*kinds)
        if k in ("matrix", "cmatrix"):
            A = rv(r, (m, n), k[0] == "c")
            return lop.matrix(J(A)), A, f"{k[0].upper()}{m}x{n}"
        if k == "identity":
            return lop.identity(n), np.eye(n), "I"
        if k in ("diagonal", "cdiag"):
            d = rv(r, (n,), k == "cdiag")
            return lop.diagonal(J(d)), np.diag(d), k
        if k == "cosine":
            M = np.array([[np.cos(np.pi * (2 * j + 1) * q / (2 * n)) * np.sqrt((1 if q == 0 else 2) / n) for q in range(n)]
                          for j in range(n)])
            return lop.cosine_basis(n), M, "DCT"
        if k == "fourier":
            M = np.exp(2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / np.sqrt(n)
            return lop.fourier_basis(n), M, "F"
        if k == "circulant":
            c = rv(r, (n,))
            M = np.stack([np.roll(c, j) for j in range(n)], axis=1)
            return lop.circulant(n, J(c)), M, "circ"
        if k == "flipud":
            return lop.flipud(n), np.eye(n)[::-1], "flip"
        if k == "cumsum":
            return lop.cumsum(n), np.tril(np.ones((n, n))), "cumsum"
        if k == "scalar":
            a = float(r.normal())
            return lop.scalar_mult(a, n), a * np.eye(n), "scalar"
        return lop.zero(n), np.zeros((n, n)), "zero"

    def gen(self, m, n, d):
        r = self.rng
        if d == 0 or r.random() < .12:
            return self.leaf(m, n)
        ops = ["neg", "scale", "add", "sub", "compose", "compose", "transpose", "adjoint", "hermitian", "partial", "jit"]
        if n >= 2:
            ops += ["hcat", "hcat"]
        if m >= 2 and n >= 2:
            ops += ["block", "block"]
        if m == n:
            ops += ["gram", "frame", "power", "power"]
        k = self.pick(*ops)
        dunder = r.random() < .5
        if k == "neg":
            a, A, e = self.gen(m, n, d - 1)
            return (-a if dunder else lop.neg(a)), -A, f"-({e})"
        if k == "scale":
            a, A, e = self.gen(m, n, d - 1)
            s = float(r.normal()) if not self.cx or r.random() < .5 else complex(r.normal(), r.normal())
            return lop.scale(a, s), s * A, f"{'c' if isinstance(s, complex) else 'r'}*({e})"
        if k in ("add", "sub"):
            a, A, e = self.gen(m, n, d - 1)
            b, B, f = self.gen(m, n, d - 1)
            if k == "add":
                return (a + b if dunder else lop.add(a, b)), A + B, f"({e}+{f})"
            return (a - b if dunder else lop.subtract(a, b)), A - B, f"({e}-{f})"
        if k == "compose":
            q = ri(r, 1, 6)
            a, A, e = self.gen(m, q, d - 1)
            b, B, f = self.gen(q, n, d - 1)
            return (a @ b if dunder else lop.compose(a, b)), A @ B, f"({e}@{f})"
        if k in ("transpose", "adjoint", "hermitian"):
            a, A, e = self.gen(n, m, d - 1)
            return getattr(lop, k)(a), (A.T if k == "transpose" else A.conj().T), f"{k[0].upper()}[{e}]"
        if k == "hcat":
            q = ri(r, 1, n - 1)
            a, A, e = self.gen(m, q, d - 1)
            b, B, f = self.gen(m, n - q, d - 1)
            return lop.hcat(a, b), np.hstack([A, B]), f"[{e},{f}]"
        if k == "block":
            q, p = ri(r, 1, n - 1), ri(r, 1, m - 1)
            a, A, e = self.gen(p, q, d - 1)
            b, B, f = self.gen(m - p, n - q, d - 1)
            M = np.zeros((m, n), dtype=np.result_type(A, B))
            M[:p, :q] = A
            M[p:, q:] = B
            return lop.block_diag([a, b]), M, f"diag({e},{f})"
        if k == "gram":
            q = ri(r, 1, 6)
            a, A, e = self.gen(q, n, d - 1)
            return lop.gram(a), A.conj().T @ A, f"gram({e})"
        if k == "frame":
            q = ri(r, 1, 6)
            a, A, e = self.gen(n, q, d - 1)
            return lop.frame(a), A @ A.conj().T, f"frame({e})"
        if k == "power":
            p = ri(r, 0, 4)
            a, A, e = self.gen(n, n, d - 1)
            return (a ** p if dunder else lop.power(a, p)), np.linalg.matrix_power(A, p), f"({e})^{p}"
        if k == "jit":
            a, A, e = self.gen(m, n, d - 1)
            return lop.jit(a), A, f"jit({e})"
        q = ri(r, 1, 6)
        a, A, e = self.gen(q, n, d - 1)
        picks = r.integers(0, q, size=m)
        if r.random() < .5:
            return lop.partial_op(a, J(picks)), A[picks], f"pick({e})"
        perm = r.permutation(n)
        # (A x[perm])[picks]
        P = np.eye(n)[perm]
        return lop.partial_op(a, J(picks), J(perm)), (A @ P)[picks], f"pickperm({e})"


def run(ctx, i):
    rng = ctx.rng
    g = G(rng, allow_complex=i % 3 != 0)
    m, n = (ri(rng, 1, 6), ri(rng, 1, 6)) if i % 2 else (lambda q: (q, q))(ri(rng, 1, 6))
    T, M, e = g.gen(m, n, 1 + i % 4)
    nM = max(float(np.linalg.norm(M)), 1.0)
    # accumulated magnitude can be larger than ||M|| when terms cancel; keep a generous absolute scale
    tol = 1e-7 if ctx.x64 else 2e-3
    ctx.ok(tuple(T.shape) == (m, n), "shape", expr=e, got=str(T.shape))
    cM = np.iscomplexobj(M)
    if cM and np.abs(M.imag).max() > 1e-6 * nM:
        ctx.ok(not T.real, "flag-real-sound", expr=e)
    if not g.cx:
        ctx.ok(T.real, "flag-real-complete", expr=e)
    ctx.ok(T.linear, "flag-linear", expr=e)
    for cp in ([False, True] if g.cx else [False]):
        x, y = rv(rng, (n,), cp), rv(rng, (m,), cp or cM)
        ctx.close(T.times(J(x)), M @ x, "times", tol=tol, scale=nM * np.linalg.norm(x), expr=e)
        ctx.close(T.trans(J(y)), M.conj().T @ y, "trans", tol=tol, scale=nM * np.linalg.norm(y), expr=e)
    ctx.close(lop.to_matrix(T), M, "matrix", tol=tol, scale=nM, expr=e)
    ctx.close(lop.to_adjoint_matrix(T), M.conj().T, "adjoint-matrix", tol=tol, scale=nM, expr=e)
    if T.matrix_safe:
        X = rv(rng, (n, ri(rng, 2, 3)), g.cx and rng.random() < .5)
        ctx.close(T.times(J(X)), M @ X, "times-matrix", tol=tol, scale=nM * np.linalg.norm(X), expr=e)
        Y = rv(rng, (m, ri(rng, 2, 3)), cM)
        ctx.close(T.trans(J(Y)), M.conj().T @ Y, "trans-matrix", tol=tol, scale=nM * np.linalg.norm(Y), expr=e)
    if T.jit_safe and i % 3 == 1:
        x = rv(rng, (n,), cM)
        ctx.close(lop.jit(T).times(J(x)), M @ x, "times-jit", tol=tol, scale=nM * np.linalg.norm(x), expr=e)
    if np.linalg.norm(M) > 0:
        ctx.nontrivial(expr=e, m=m, n=n)


@group("C03", quick=220, thorough=3000)
def trees(ctx, i):
    run(ctx, i)


@group("C03", quick=24, thorough=300, mode="f32")
def trees_f32(ctx, i):
    run(ctx, i)


@group("C03", quick=8, thorough=40)
def three_blocks(ctx, i):
    """block_diag of 2-5 operators, along both axes."""
    rng = ctx.rng
    g = G(rng, i % 2 == 0)
    k = ri(rng, 2, 5)
    parts = [g.leaf(ri(rng, 1, 4), ri(rng, 1, 4)) for _ in range(k)]
    m, n = sum(p[1].shape[0] for p in parts), sum(p[1].shape[1] for p in parts)
    M = np.zeros((m, n), dtype=np.result_type(*[p[1] for p in parts]))
    r = c = 0
    for _, A, _ in parts:
        M[r:r + A.shape[0], c:c + A.shape[1]] = A
        r += A.shape[0]
        c += A.shape[1]
    T = lop.block_diag([p[0] for p in parts])
    nM = max(np.linalg.norm(M), 1.)
    ctx.ok(tuple(T.shape) == (m, n), "shape")
    x = rv(rng, (n,), g.cx)
    y = rv(rng, (m,), True)
    ctx.close(T.times(J(x)), M @ x, "times", scale=nM * np.linalg.norm(x))
    if np.iscomplexobj(M):
        ctx.close(T.trans(J(y)), M.conj().T @ y, "trans", scale=nM * np.linalg.norm(y))
    else:
        ctx.close(T.trans(J(y.real)), M.T @ y.real, "trans", scale=nM * np.linalg.norm(y))
    ctx.nontrivial(k=k, m=m, n=n)


@group("C03", quick=16, thorough=120)
def laws(ctx, i):
    """Algebraic identities stated directly between operators (no matrices)."""
    rng = ctx.rng
    g = G(rng, i % 2 == 0)
    m, n, q = ri(rng, 1, 5), ri(rng, 1, 5), ri(rng, 1, 5)
    A, MA, _ = g.gen(m, n, 2)
    B, MB, _ = g.gen(m, n, 2)
    C, MC, _ = g.gen(n, q, 2)
    s = max(1., np.linalg.norm(MA), np.linalg.norm(MB)) * max(1., np.linalg.norm(MC)) * 10
    x, y = rv(rng, (q,), g.cx), rv(rng, (m,), g.cx)
    L = lop.compose(A + B, C)
    R = lop.compose(A, C) + lop.compose(B, C)
    ctx.close(L.times(J(x)), np.asarray(R.times(J(x))), "distributive", scale=s * np.linalg.norm(x))
    L = lop.adjoint(lop.compose(A, C))
    R = lop.compose(lop.adjoint(C), lop.adjoint(A))
    ctx.close(L.times(J(y)), np.asarray(R.times(J(y))), "adjoint-reverses", scale=s * np.linalg.norm(y))
    z = rv(rng, (n,), g.cx)
    ctx.close(lop.adjoint(lop.adjoint(A)).times(J(z)), np.asarray(A.times(J(z))), "involution", scale=s * np.linalg.norm(z))
    ctx.close((A - A).times(J(z)), np.zeros(m), "self-cancel", scale=s * np.linalg.norm(z), tol=1e-9)
    # incompatible shapes are refused
    bad = lop.matrix(J(rv(rng, (m + 1, n))))
    for nm, f in (("add", lambda: lop.add(A, bad)), ("sub", lambda: lop.subtract(A, bad)),
                  ("compose", lambda: lop.compose(C, bad) if C.shape[1] != m + 1 else (_ for _ in ()).throw(ValueError())),
                  ("hcat", lambda: lop.hcat(A, bad)),
                  ("power", lambda: lop.power(lop.matrix(J(rv(rng, (m, m + 1)))), 2))):
        raised = False
        try:
            f()
        except Exception:
            raised = True
        ctx.ok(raised, "refuses-incompatible-" + nm)
    ctx.nontrivial(m=m, n=n, q=q, s=float(s))
