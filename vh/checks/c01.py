"""C01: the adjoint shipped with every operator is the true adjoint of its forward map."""
import math

import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
from vh.core import group
from vh.lopcat import BUILDERS, NAMES, rv, ri, key, ORTHO_WAVELETS
from vh import lopcat


def vec(rng, shape, cplx):
    # hostile magnitudes: mostly dense gaussian, sometimes spiky/impulses
    x = rv(rng, shape, cplx)
    r = rng.random()
    if r < 0.15:
        mask = np.zeros(int(np.prod(shape)))
        mask[rng.integers(mask.size)] = 1
        x = x * mask.reshape(shape)
    elif r < 0.3:
        x = x * 10.0 ** rng.uniform(-3, 3, size=shape)
    return x


def monitor_adjoint(ctx, op, ins, outs, cin, cout, normA, /, real_ip=False, tag="", **p):
    """<A x, y> == <x, A^H y> on a random pair, plus shape of A^H y."""
    rng = ctx.rng
    x = vec(rng, ins, cin)
    y = vec(rng, outs, cout)
    Ax = np.asarray(op.times(jnp.asarray(x)))
    Ay = np.asarray(op.trans(jnp.asarray(y)))
    ctx.ok(Ax.shape == tuple(outs), "forward-shape", got=str(Ax.shape), want=str(outs), **p)
    ctx.ok(Ay.shape == tuple(ins), "adjoint-shape", got=str(Ay.shape), want=str(ins), **p)
    if Ax.shape != tuple(outs) or Ay.shape != tuple(ins):
        return
    lhs = np.vdot(y.ravel(), Ax.ravel())
    rhs = np.vdot(Ay.ravel(), x.ravel())
    if real_ip:
        lhs, rhs = lhs.real, rhs.real
    scale = normA * np.linalg.norm(x) * np.linalg.norm(y)
    ctx.close(lhs, rhs, "inner-product" + tag, scale=scale, tol=1e-9 if ctx.x64 else 2e-5, xin=x, yin=y, **p)


def run(ctx, i):
    name = NAMES[i % len(NAMES)]
    c = BUILDERS[name](ctx.rng)
    normA = max(np.linalg.norm(c.M), 1e-3)
    if not c.exact:
        normA *= 10      # tabulated wavelet filters: orthogonal to ~1e-12 only
    p = dict(factory=c.name, **{k: str(v) for k, v in c.params.items()})
    cM = np.iscomplexobj(c.M)
    only2d = c.name == "fft" and c.axis == 1
    ops = [("", c.op)]
    if c.op.jit_safe and c.name != "pad_zeros" and i % 3 == 0:
        ops.append(("-jit", lop.jit(c.op)))
    for tag, op in ops:
        if not only2d:
            monitor_adjoint(ctx, op, c.ins, c.outs, False, cM, normA, c.real_adj, tag, **p)
            if c.cplx:
                monitor_adjoint(ctx, op, c.ins, c.outs, True, True, normA, c.real_adj, tag + "-complex", **p)
        if c.axis is not None and not tag:
            B = ri(ctx.rng, 1, 4)
            ins, outs = ((c.ins[0], B), (c.outs[0], B)) if c.axis == 0 else ((B, c.ins[0]), (B, c.outs[0]))
            monitor_adjoint(ctx, op, ins, outs, c.cplx, c.cplx or cM, normA, c.real_adj, "-along-axis", **p)
            if B > 1 and ctx.rng.random() < .25 and c.name not in ("sum", "flipud", "symmetrize", "fft", "fourier_basis",
                                                                    "dirac_fourier_basis", "cosine_basis", "scalar_mult",
                                                                    "sparse_real_matrix", "sparse_binary_dict", "matrix",
                                                                    "gaussian_dict", "rademacher_dict", "random_onb_dict",
                                                                    "random_orthonormal_rows_dict"):
                ins3 = (c.ins[0], B, 2) if c.axis == 0 else (2, c.ins[0], B)
                outs3 = (c.outs[0], B, 2) if c.axis == 0 else (2, c.outs[0], B)
                monitor_adjoint(ctx, op, ins3, outs3, c.cplx, c.cplx or cM, normA, c.real_adj, "-3d", **p)
    # involution and the materialised adjoint
    if not only2d and not c.real_adj:
        H = lop.adjoint(c.op)
        ctx.ok(H.shape == (c.op.shape[1], c.op.shape[0]), "adjoint-swaps-shape", **p)
        if c.name not in ("dot",):
            A = np.asarray(lop.to_matrix(c.op))
            AH = np.asarray(lop.to_adjoint_matrix(c.op))
            ctx.close(AH, A.conj().T, "materialised-adjoint", scale=normA, tol=1e-9 if ctx.x64 else 2e-5, **p)
    ctx.nontrivial(**p)


@group("C01", quick=9 * len(NAMES), thorough=120 * len(NAMES))
def catalogue(ctx, i):
    run(ctx, i)


@group("C01", quick=2 * len(NAMES), thorough=20 * len(NAMES), mode="f32")
def catalogue_f32(ctx, i):
    run(ctx, i)


RICH = ["convolveND", "convolve", "dwt2D", "dwt", "fft", "windowed_op", "restriction", "pad_zeros", "block_diag", "fir_filter"]


@group("C01", quick=16 * len(RICH), thorough=150 * len(RICH))
def rich_parameters(ctx, i):
    """Many more configurations of the families with most parameters: whole adjoint matrix vs conjugate transpose."""
    c = BUILDERS[RICH[i % len(RICH)]](ctx.rng)
    p = dict(factory=c.name, **{k: str(v) for k, v in c.params.items()})
    normA = max(np.linalg.norm(c.M), 1e-3) * (1 if c.exact else 10)
    cM = np.iscomplexobj(c.M)
    if c.name == "fft" and c.axis == 1:
        monitor_adjoint(ctx, c.op, (3, c.ins[0]), (3, c.outs[0]), c.cplx, c.cplx or cM, normA, c.real_adj, "-along-axis", **p)
    elif c.real_adj:
        monitor_adjoint(ctx, c.op, c.ins, c.outs, c.cplx, c.cplx or cM, normA, c.real_adj, **p)
    else:
        ctx.close(lop.to_adjoint_matrix(c.op), np.asarray(lop.to_matrix(c.op)).conj().T, "materialised-adjoint", scale=normA, tol=1e-9, **p)
    ctx.nontrivial(**p)


# --- larger, user-sized instances (no dense model needed) -------------------
def _large(rng, i):
    k = i % 16
    n = ri(rng, 33, 260)
    J = jnp.asarray
    if k == 0:
        h = rv(rng, (ri(rng, 2, 40),))
        return "convolve", lop.convolve(n, J(h), offset=ri(rng, 0, len(h) - 1)), (n,), (n,), False, np.abs(h).sum()
    if k == 1:
        L = ri(rng, 1, n)
        return "running_average", lop.running_average(n, L), (n,), (n,), False, 1.0
    if k == 2:
        h = rv(rng, (ri(rng, 2, min(n, 60)),))
        return "fir", lop.fir_filter(n, J(h)), (n,), (n,), False, np.abs(h).sum()
    if k == 3:
        w = ORTHO_WAVELETS[ri(rng, 0, len(ORTHO_WAVELETS) - 1)]
        import cr.wavelets as wt
        ml = int(wt.dwt_max_level(n, wt.to_wavelet(w).dec_len))
        lev = ri(rng, 1, max(1, ml))
        op = lop.dwt(n, wavelet=w, level=lev, basis=bool(ri(rng, 0, 1)))
        return f"dwt-{w}-{lev}", op, op.input_shape, op.output_shape, False, 10.0
    if k == 4:
        c = rv(rng, (ri(rng, 1, n),))
        return "circulant", lop.circulant(n, J(c)), (n,), (n,), False, np.abs(c).sum()
    if k == 5:
        return "cosine", lop.cosine_basis(n), (n,), (n,), False, 1.0
    if k == 6:
        return "heaviside", lop.heaviside(n, normalized=bool(ri(rng, 0, 1))), (n,), (n,), False, float(n)
    if k == 7:
        return "inv_heaviside", lop.inv_heaviside(n, normalized=bool(ri(rng, 0, 1))), (n,), (n,), False, 4 * math.sqrt(n)
    if k == 8:
        w = ri(rng, 8, 32)
        op = lop.windowed_op(n, lop.cosine_basis(w), overlap=ri(rng, 0, w - 1))
        return "windowed", op, op.input_shape, op.output_shape, False, float(w)
    if k == 9:
        kind = ['forward', 'backward', 'centered'][ri(rng, 0, 2)]
        dx = float(10 ** rng.uniform(-2, 2))
        return "d1-" + kind, lop.first_derivative(n, dx=dx, kind=kind), (n,), (n,), False, 2 / dx
    if k == 10:
        kind = ['regular', 'dirichlet', 'circular'][ri(rng, 0, 2)]
        return "tv-" + kind, lop.tv(n, kind=kind), (n,), (n,), False, 2.0
    if k == 11:
        m = ri(rng, 8, n)
        op = lop.fft(m, n, mode='c2c')
        return "fft", op, (m,), (n,), True, math.sqrt(n)
    if k == 12:
        sh = (ri(rng, 6, 20), ri(rng, 6, 20))
        h = rv(rng, (ri(rng, 1, 5), ri(rng, 1, 5)))
        off = tuple(ri(rng, 0, s - 1) for s in h.shape)
        return "conv2D", lop.convolve2D(sh, J(h), offset=off), sh, sh, False, np.abs(h).sum()
    if k == 13:
        sh = [(16, 16), (20, 30), (32, 16), (24, 17)][ri(rng, 0, 3)]
        op = lop.dwt2D(sh, wavelet=['haar', 'db2'][ri(rng, 0, 1)], level=ri(rng, 1, 2), basis=bool(ri(rng, 0, 1)))
        return "dwt2D", op, op.input_shape, op.output_shape, False, 10.0
    if k == 14:
        I = rng.choice(n, ri(rng, 1, n), replace=bool(ri(rng, 0, 1)))
        op = lop.partial_op(lop.cosine_basis(n), J(I), J(rng.permutation(n)) if rng.random() < .6 else None)
        return "partial", op, (n,), (len(I),), False, math.sqrt(len(I))
    A = lop.gaussian_dict(key(rng), ri(rng, 10, 60), n)
    op = lop.compose(A, lop.cosine_basis(n))
    return "sensing", op, op.input_shape, op.output_shape, False, math.sqrt(n)


@group("C01", quick=48, thorough=480)
def large(ctx, i):
    name, op, ins, outs, c, nrm = _large(ctx.rng, i)
    for _ in range(2):
        monitor_adjoint(ctx, op, ins, outs, c, c, max(nrm, 1e-3), op=name, ins=str(ins), outs=str(outs))
    ctx.nontrivial(op=name, ins=ins, outs=outs)


@group("C01", quick=24, thorough=120)
def helper_verdicts(ctx, i):
    """The library's own adjoint tests accept true pairs and reject wrong ones."""
    rng = ctx.rng
    m, n = ri(rng, 2, 12), ri(rng, 2, 12)
    A = rv(rng, (m, n))
    T = lop.matrix(jnp.asarray(A))
    k = key(rng)
    Br = rv(rng, (m, n))
    bad = lop.Operator(times=T.times, trans=lop.matrix(jnp.asarray(Br)).trans, shape=T.shape)
    ctx.ok(lop.dot_test_real(k, T, tol=1e-6), "dot-test-accepts-adjoint", m=m, n=n)
    # independently recompute what the verdict must be
    k1, k2 = jax.random.split(k, 2)
    u = np.asarray(jax.random.normal(k1, (n,)))
    v = np.asarray(jax.random.normal(k2, (m,)))
    yy, xx = (A @ u) @ v, u @ (Br.T @ v)
    gap = abs(yy - xx) / ((abs(yy) + abs(xx)) / 2)
    if gap > 1e-3:
        ctx.ok(not bool(lop.dot_test_real(k, bad, tol=1e-6)), "dot-test-rejects-non-adjoint", yy=yy, xx=xx)
    v1 = rv(rng, (n,))
    D = lop.dot(jnp.asarray(v1))
    ctx.ok(lop.rdot_test_complex(k, D, tol=1e-6), "rdot-test-accepts-adjoint", n=n)
    badD = lop.Operator(times=D.times, trans=lambda x: -D.trans(x), shape=D.shape)
    ctx.ok(not bool(lop.rdot_test_complex(k, badD, tol=1e-6)), "rdot-test-rejects-non-adjoint", n=n)
    ctx.nontrivial(m=m, n=n, sign=float(np.sign(yy)))


@group("C01", quick=2, thorough=2)
def known_probes(ctx, i):
    rng = np.random.default_rng(7)
    if i == 0:
        T = lop.tv2D((3, 4))
        x = rv(rng, (3, 4))
        y = rv(rng, (3, 4), True)
        lhs = np.vdot(y, np.asarray(T.times(jnp.asarray(x)))).real
        rhs = np.vdot(np.asarray(T.trans(jnp.asarray(y))), x).real
        ctx.known("tv2D-adjoint", abs(lhs - rhs) < 1e-6,
                  "the 2-D total variation operator's adjoint is not adjoint to its forward map (values pinned by tests/lop/test_tv.py)")
    else:
        A = rv(rng, (5, 5), True)
        T = lop.matrix(jnp.asarray(A))
        bad = lop.Operator(times=T.times, trans=lambda x: -T.trans(x) - 3 * x, shape=T.shape, real=False)
        verdicts = [bool(lop.dot_test_complex(jax.random.PRNGKey(s), bad)) for s in range(40)]
        ctx.known("dot-test-complex-sign", not any(verdicts),
                  "the complex adjoint self-test accepts non-adjoint pairs whose inner products have negative sums "
                  "(tests/lop/test_basics.py::test_real_part depends on it)")


@group("C01", quick=2 * len(lopcat.AXIS_FAMILIES), thorough=20 * len(lopcat.AXIS_FAMILIES))
def along_axis(ctx, i):
    """operators working along one axis of 2-D to 4-D arrays"""
    rng = ctx.rng
    nm = lopcat.AXIS_FAMILIES[i % len(lopcat.AXIS_FAMILIES)]
    for nd in (2, 3, 4):
        ax = ri(rng, 0, nd - 1)
        T, M = lopcat.axis_family(rng, nm, ax)
        sh = [2, 3, 5, 2][:nd]
        sh[ax] = M.shape[0]
        x = rv(rng, tuple(sh), nm in ("matrix", "diagonal", "fft", "restriction") and bool(rng.integers(2)))
        want = np.moveaxis(np.tensordot(M.conj().T, x, (1, ax)), 0, ax)
        y = np.asarray(T.trans(jnp.asarray(x)))
        p = dict(factory=nm, ax=ax, shape=str(sh))
        if ctx.ok(y.shape == want.shape, "along-axis:shape", got=str(y.shape), **p):
            ctx.close(y, want, "along-axis:adjoint", tol=1e-9, scale=np.linalg.norm(M) * np.linalg.norm(x) + 1e-9, **p)
        ctx.nontrivial(x=complex(x.ravel()[0]), **p)
