"""C02: every operator factory acts as the linear map it documents (dense reference model)."""
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
from vh.core import group
from vh.lopcat import BUILDERS, NAMES, rv, ri
from vh import lopcat


def run(ctx, i, builder=None):
    rng = ctx.rng
    name = NAMES[i % len(NAMES)]
    c = (builder or BUILDERS[name])(rng)
    T, M = c.op, np.asarray(c.M)
    p = dict(factory=c.name, **{k: str(v) for k, v in c.params.items()})
    tol = (1e-9 if c.exact else 1e-7) if ctx.x64 else 3e-5
    nM = max(np.linalg.norm(M), 1e-3)
    only2d = c.name == "fft" and c.axis == 1
    # declared shapes
    ctx.ok(tuple(T.input_shape) == tuple(c.ins) and tuple(T.output_shape) == tuple(c.outs), "declared-shape",
           got=str(T.shape), want=str((c.outs, c.ins)), **p)
    ctx.ok(T.input_size == int(np.prod(c.ins)) and T.output_size == int(np.prod(c.outs)), "declared-size", **p)
    ctx.ok(T.input_ndim == len(c.ins) and T.output_ndim == len(c.outs), "declared-ndim", **p)
    if np.iscomplexobj(M) and np.abs(M.imag).max() > 1e-6 and c.name != "tv2D":
        ctx.ok(not T.real, "real-flag", **p)
    kinds = [False] + ([True] if c.cplx else [])
    for cp in kinds:
        if not only2d:
            x, z = rv(rng, c.ins, cp), rv(rng, c.ins, cp)
            y = np.asarray(T.times(jnp.asarray(x)))
            ctx.close(y, (M @ x.ravel()).reshape(c.outs), "forward" + ("-complex" if cp else ""), tol=tol,
                      scale=nM * np.linalg.norm(x), xin=x, **p)
            a, b_ = (complex(rng.normal(), rng.normal()) if cp else rng.normal() for _ in range(2))
            comb = np.asarray(T.times(jnp.asarray(a * x + b_ * z)))
            ctx.close(comb, a * y + b_ * np.asarray(T.times(jnp.asarray(z))), "linearity", tol=tol,
                      scale=nM * (abs(a) * np.linalg.norm(x) + abs(b_) * np.linalg.norm(z)), **p)
            if not cp and not np.iscomplexobj(M):
                ctx.ok(np.isrealobj(y), "real-in-real-out", dtype=str(y.dtype), **p)
            ctx.close(T.times(jnp.zeros(c.ins)), np.zeros(c.outs), "zero-to-zero", scale=1.0, tol=1e-12, **p)
        if c.axis is not None:
            B = ri(rng, 1, 4)
            X = rv(rng, (c.ins[0], B) if c.axis == 0 else (B, c.ins[0]), cp)
            Y = np.asarray(T.times(jnp.asarray(X)))
            ctx.close(Y, M @ X if c.axis == 0 else X @ M.T, "forward-along-axis", tol=tol, scale=nM * np.linalg.norm(X), **p)
    if not only2d and c.name != "dot":
        ctx.close(lop.to_matrix(T), M, "materialised", tol=tol, scale=nM, **p)
        if c.cplx:
            ctx.close(lop.to_complex_matrix(T), M, "materialised-complex", tol=tol, scale=nM, **p)
        if T.input_ndim == 1 and T.output_ndim == 1:
            B = ri(rng, 1, 3)
            X = rv(rng, (c.ins[0], B))
            ctx.close(T.times_2d(jnp.asarray(X)), M @ X, "times-2d", tol=tol, scale=nM * np.linalg.norm(X), **p)
            Y = rv(rng, (c.outs[0], B), np.iscomplexobj(M))
            ctx.close(T.trans_2d(jnp.asarray(Y)), M.conj().T @ Y, "trans-2d", tol=tol, scale=nM * np.linalg.norm(Y), **p)
            j = ri(rng, 0, c.ins[0] - 1)
            ctx.close(T.column(j), M[:, j], "column", tol=tol, scale=nM, col=j, **p)
            if T.matrix_safe and isinstance(T.shape[1], int) and c.axis in (0, None) and c.name not in ("real_matrix", "walsh_hadamard_basis", "first_derivative",
                                                                         "second_derivative", "dot"):
                I = rng.choice(c.ins[0], ri(rng, 1, c.ins[0]), replace=False)
                ctx.close(T.columns(jnp.asarray(I)), M[:, I], "columns", tol=tol, scale=nM, cols=I, **p)
    if i % 4 == 0 and T.jit_safe and c.name != "pad_zeros" and not only2d:
        x = rv(rng, c.ins)
        ctx.close(lop.jit(T).times(jnp.asarray(x)), (M @ x.ravel()).reshape(c.outs), "forward-jit", tol=tol,
                  scale=nM * np.linalg.norm(x), **p)
    ctx.nontrivial(**p)


@group("C02", quick=9 * len(NAMES), thorough=120 * len(NAMES))
def catalogue(ctx, i):
    run(ctx, i)


@group("C02", quick=len(NAMES), thorough=20 * len(NAMES), mode="f32")
def catalogue_f32(ctx, i):
    run(ctx, i)


RICH = ["convolveND", "convolve", "dwt2D", "dwt", "fft", "windowed_op", "restriction", "pad_zeros", "block_diag", "fir_filter"]


@group("C02", quick=12 * len(RICH), thorough=150 * len(RICH))
def rich_parameters(ctx, i):
    """Many more configurations of the families with most parameters: one application against the dense model."""
    rng = ctx.rng
    c = BUILDERS[RICH[i % len(RICH)]](rng)
    p = dict(factory=c.name, **{k: str(v) for k, v in c.params.items()})
    nM = max(np.linalg.norm(c.M), 1e-3)
    tol = 1e-9 if c.exact else 1e-7
    ins, outs = c.ins, c.outs
    cp = c.cplx and rng.random() < .5
    if c.axis is not None and (rng.random() < .5 or c.name == "fft"):
        X = rv(rng, (c.ins[0], 3) if c.axis == 0 else (3, c.ins[0]), cp)
        want = c.M @ X if c.axis == 0 else X @ c.M.T
    else:
        X = rv(rng, c.ins, cp)
        want = (c.M @ X.ravel()).reshape(c.outs)
    ctx.close(c.op.times(jnp.asarray(X)), want, "forward-rich", tol=tol, scale=nM * np.linalg.norm(X), xin=X, **p)
    ctx.nontrivial(**p)


@group("C02", quick=9, thorough=60)
def total_variation_2d(ctx, i):
    run(ctx, 0, lopcat.tv2D_forward)


@group("C02", quick=6, thorough=24)
def real_part(ctx, i):
    n = ri(ctx.rng, 1, 9)
    T = lop.real(n)
    x = rv(ctx.rng, (n,), True)
    ctx.close(T.times(jnp.asarray(x)), x.real, "real-part")
    ctx.ok(not T.linear, "real-part-not-linear")
    raised = False
    try:
        lop.to_matrix(T)
    except Exception:
        raised = True
    ctx.ok(raised, "no-matrix-for-nonlinear")
    ctx.nontrivial(n=n)


@group("C02", quick=2 * len(lopcat.AXIS_FAMILIES), thorough=20 * len(lopcat.AXIS_FAMILIES))
def along_axis(ctx, i):
    """operators working along one axis of 2-D to 4-D arrays"""
    rng = ctx.rng
    nm = lopcat.AXIS_FAMILIES[i % len(lopcat.AXIS_FAMILIES)]
    for nd in (2, 3, 4):
        ax = ri(rng, 0, nd - 1)
        T, M = lopcat.axis_family(rng, nm, ax)
        sh = [2, 3, 5, 2][:nd]
        sh[ax] = M.shape[1]
        x = rv(rng, tuple(sh), nm in ("matrix", "diagonal", "fft", "restriction") and bool(rng.integers(2)))
        want = np.moveaxis(np.tensordot(M, x, (1, ax)), 0, ax)
        y = np.asarray(T.times(jnp.asarray(x)))
        p = dict(factory=nm, ax=ax, shape=str(sh))
        if ctx.ok(y.shape == want.shape, "along-axis:shape", got=str(y.shape), **p):
            ctx.close(y, want, "along-axis:forward", tol=1e-9, scale=np.linalg.norm(M) * np.linalg.norm(x) + 1e-9, **p)
        ctx.nontrivial(x=complex(x.ravel()[0]), **p)


@group("C02", quick=1, thorough=1)
def known_probes(ctx, i):
    good = True
    try:
        T = lop.spread_with_table((2, 3), (2, 4), jnp.asarray(np.ones((2, 3, 2))), jnp.asarray(np.zeros((2, 3, 2))))
        y = np.asarray(T.times(jnp.asarray(np.ones((2, 3)))))
        x = np.asarray(T.trans(jnp.asarray(np.ones((2, 4)))), dtype=float)
        good = y.shape == (2, 4) and x.shape == (2, 3)
    except Exception:
        good = False
    ctx.known("spread-with-table", good, "lop.spread_with_table is unfinished: its forward map raises for every input and its adjoint is empty")
