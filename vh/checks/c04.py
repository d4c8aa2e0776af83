"""C04: orthonormal transforms are isometries with perfect reconstruction; invertible pairs invert."""
import numpy as np
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.dict as crdict
import cr.wavelets as wt
from vh.core import group
from vh.lopcat import rv, ri, key, ORTHO_WAVELETS

J = jnp.asarray
BIOR = ['bior1.3', 'bior2.2', 'bior2.4', 'bior3.3', 'bior4.4', 'rbio1.3', 'rbio2.2', 'rbio3.3', 'rbio4.4', 'bior5.5']


def signal(rng, shape, cp=False):
    r = rng.integers(5)
    if r == 0:                      # impulse
        x = np.zeros(int(np.prod(shape)))
        x[rng.integers(x.size)] = 10.0 ** rng.uniform(-3, 3)
        return x.reshape(shape) * (1 + 0j if cp else 1)
    if r == 1:                      # constant / alternating
        x = np.ones(int(np.prod(shape)))
        x[1::2] *= rng.choice([-1, 1])
        return x.reshape(shape) * (1j if cp else 1)
    if r == 2:                      # huge dynamic range
        return rv(rng, shape, cp) * 10.0 ** rng.uniform(-4, 4, size=shape)
    return rv(rng, shape, cp)


def build(rng, k):
    """-> name, operator, complex allowed, isometry side ('both','cols','rows'), factor"""
    if k == 0:
        n = ri(rng, 1, 300)
        return f"fourier{n}", lop.fourier_basis(n), True, "both", 1.0
    if k == 1:
        n = ri(rng, 1, 300)
        return f"cosine{n}", lop.cosine_basis(n), False, "both", 1.0
    if k == 2:
        n = 2 ** ri(rng, 1, 9)
        return f"wht{n}", lop.walsh_hadamard_basis(n), False, "both", 1.0
    if k in (3, 4, 5):
        w = ORTHO_WAVELETS[ri(rng, 0, len(ORTHO_WAVELETS) - 1)]
        n = [64, 128, 256, 100, 77, 200, 150][ri(rng, 0, 6)]
        ml = max(1, int(wt.dwt_max_level(n, wt.to_wavelet(w).dec_len)))
        lev = ri(rng, 1, ml)
        basis = k == 5
        side = "both" if (n & (n - 1)) == 0 else ("rows" if basis else "cols")
        return f"dwt-{w}-{n}-{lev}-{basis}", lop.dwt(n, wavelet=w, level=lev, basis=basis), False, side, 1.0
    if k in (6, 7):
        w = ['haar', 'db2', 'db4', 'sym4', 'coif1'][ri(rng, 0, 4)]
        sh = [(32, 32), (32, 64), (64, 32), (24, 32), (20, 30), (33, 17), (32, 3, 32), (2, 24, 40)][ri(rng, 0, 7)]
        axes = (0, 1) if len(sh) == 2 else ((0, 2) if sh[0] == 32 else (1, 2))
        if len(sh) == 2 and rng.random() < .25:
            axes = (1, 0)
        L = wt.to_wavelet(w).dec_len
        ml = min(int(wt.dwt_max_level(sh[a], L)) for a in axes)
        if ml < 1:
            w, ml = 'haar', min(int(wt.dwt_max_level(sh[a], 2)) for a in axes)
        lev = ri(rng, 1, ml)
        basis = k == 7
        full = all((sh[a] & (sh[a] - 1)) == 0 for a in axes)
        side = "both" if full else ("rows" if basis else "cols")
        op = lop.dwt2D(sh, wavelet=w, level=lev, axes=axes if axes != (0, 1) or rng.random() < .5 else None, basis=basis)
        return f"dwt2D-{w}-{sh}-{lev}-{basis}-{axes}", op, False, side, 1.0
    if k == 8:
        n = ri(rng, 1, 60)
        return f"random_onb{n}", lop.random_onb_dict(key(rng), n), True, "both", 1.0
    if k == 9:
        n = ri(rng, 2, 80)
        m = ri(rng, 1, n)
        return f"orthorows{m}x{n}", lop.random_orthonormal_rows_dict(key(rng), m, n), True, "rows", 1.0
    if k == 10:
        n = ri(rng, 1, 200)
        return f"dirac_fourier{n}", lop.dirac_fourier_basis(n), True, "rows", 2.0
    if k == 11:
        n = ri(rng, 1, 200)
        return f"flipud{n}", lop.flipud(n), True, "both", 1.0
    if k == 12:
        n = ri(rng, 1, 200)
        m = ri(rng, 1, n)
        I = rng.choice(n, m, replace=False)
        base, cp = (lop.cosine_basis(n), False) if rng.random() < .5 else (lop.fourier_basis(n), True)
        op = lop.partial_op(base, J(I), J(rng.permutation(n)) if rng.random() < .5 else None)
        return f"partial{m}of{n}", op, cp, "rows", 1.0
    n = ri(rng, 1, 150)
    nn = n + ri(rng, 0, 50)
    return f"fft{n}-{nn}", lop.fft(n, nn, mode=['r2c', 'c2c'][ri(rng, 0, 1)]), False, "cols", float(nn)


def monitor(ctx, i):
    rng = ctx.rng
    name, T, cp, side, f = build(rng, i % 14)
    tol = 1e-7 if ctx.x64 else 3e-4      # tabulated wavelet filters are orthonormal to ~1e-10
    for c in ([False, True] if cp else [False]):
        if side in ("both", "cols"):
            x, z = signal(rng, T.input_shape, c), signal(rng, T.input_shape, c)
            y, w = np.asarray(T.times(J(x))), np.asarray(T.times(J(z)))
            nx, nz = np.linalg.norm(x), np.linalg.norm(z)
            ctx.close(np.linalg.norm(y) ** 2, f * nx ** 2, "energy", scale=f * nx ** 2, tol=tol, op=name)
            ctx.close(np.vdot(w, y), f * np.vdot(z, x), "inner-product", scale=f * nx * nz, tol=tol, op=name)
            ctx.close(T.trans(J(y)), f * x, "adjoint-inverts-forward", scale=f * nx, tol=tol, op=name)
        if side in ("both", "rows"):
            u = signal(rng, T.output_shape, c)
            nu = np.linalg.norm(u)
            v = np.asarray(T.trans(J(u)))
            ctx.close(np.linalg.norm(v) ** 2, f * nu ** 2, "energy-adjoint", scale=f * nu ** 2, tol=tol, op=name)
            ctx.close(T.times(J(v)), f * u, "forward-inverts-adjoint", scale=f * nu, tol=tol, op=name)
    ctx.nontrivial(op=name)


@group("C04", quick=154, thorough=1400)
def isometry(ctx, i):
    monitor(ctx, i)


@group("C04", quick=28, thorough=280, mode="f32")
def isometry_f32(ctx, i):
    monitor(ctx, i)


@group("C04", quick=20, thorough=160)
def biorthogonal(ctx, i):
    """Biorthogonal wavelets: the reconstruction direction inverts the decomposition direction."""
    rng = ctx.rng
    w = BIOR[i % len(BIOR)]
    L = wt.to_wavelet(w).dec_len
    if i % 3 == 2:
        sh = (64, ri(rng, 40, 64))
        op = lop.dwt2D(sh, wavelet=w, level=1)
        x = signal(rng, sh)
    else:
        n = [64, 128, 256, 100, 90][ri(rng, 0, 4)]
        lev = ri(rng, 1, max(1, int(wt.dwt_max_level(n, L))))
        op = lop.dwt(n, wavelet=w, level=lev)
        x = signal(rng, (n,))
    ctx.close(op.trans(op.times(J(x))), x, "perfect-reconstruction", scale=np.linalg.norm(x), tol=1e-7, wavelet=w)
    ctx.nontrivial(w=w, shape=op.shape)


@group("C04", quick=16, thorough=120)
def inverse_pairs(ctx, i):
    rng = ctx.rng
    n = ri(rng, 1, 120)
    nrm = bool(i % 2)
    H, Hi = lop.heaviside(n, normalized=nrm), lop.inv_heaviside(n, normalized=nrm)
    x = signal(rng, (n,))
    ctx.close(Hi.times(H.times(J(x))), x, "heaviside-left-inverse", scale=n * np.linalg.norm(x), tol=1e-10, n=n)
    ctx.close(H.times(Hi.times(J(x))), x, "heaviside-right-inverse", scale=n * np.linalg.norm(x), tol=1e-10, n=n)
    if n >= 2:
        c, d = lop.cumsum(n), lop.diff(n)
        ctx.close(d.times(c.times(J(x))), x, "diff-of-cumsum", scale=n * np.linalg.norm(x), tol=1e-10, n=n)
    m = ri(rng, 1, 12)
    f, g = lop.flipud(n), lop.arr2vec((n, m))
    X = rv(rng, (n, m))
    ctx.close(f.times(f.times(J(x))), x, "flip-twice", tol=0, scale=1)
    ctx.close(g.trans(g.times(J(X))), X, "vec-roundtrip", tol=0, scale=1)
    b, a = ri(rng, 0, 5), ri(rng, 0, 5)
    P = lop.pad_zeros(n, b, a)
    ctx.close(P.trans(P.times(J(x))), x, "pad-roundtrip", tol=0, scale=1)
    ctx.nontrivial(n=n, normalized=nrm)


@group("C04", quick=42, thorough=260)
def bases(ctx, i):
    """Dense bases: B^H B = I, and agree with the matching fast operator."""
    rng = ctx.rng
    k = i % 6
    tol = 1e-6
    if k == 0:
        n = 2 ** ri(rng, 0, 6)
        H = np.asarray(crdict.hadamard(n))
        ctx.ok(set(np.unique(H)) <= {-1, 1}, "hadamard-pm1", n=n)
        ctx.close(H @ H.T, n * np.eye(n), "hadamard-orthogonal", tol=0, scale=1)
        B = np.asarray(crdict.hadamard_basis(n))
        ctx.close(np.asarray(crdict.dirac_hadamard_basis(n)), np.hstack([np.eye(n), B]), "two-ortho-layout", tol=tol)
        if n >= 2:      # same transform up to the order of the rows
            x = rv(rng, (n,))
            ctx.close(np.sort(np.asarray(lop.walsh_hadamard_basis(n).times(J(x)))), np.sort(B @ x), "wht-equals-dense", tol=tol)
    elif k == 1:
        n = ri(rng, 1, 64)
        B = np.asarray(crdict.cosine_basis(n))
        ctx.close(np.asarray(crdict.dirac_cosine_basis(n)), np.hstack([np.eye(n), B]), "two-ortho-layout", tol=tol)
        x = rv(rng, (n,))
        ctx.close(lop.cosine_basis(n).trans(J(x)), B @ x, "dct-equals-dense", tol=tol)
    elif k == 2:
        n = ri(rng, 1, 64)
        B = np.asarray(crdict.fourier_basis(n))
        x = rv(rng, (n,), True)
        ctx.close(lop.fourier_basis(n).times(J(x)), B @ x, "dft-equals-dense", tol=tol)
    elif k == 3:
        w = ORTHO_WAVELETS[ri(rng, 0, len(ORTHO_WAVELETS) - 1)]
        n = [32, 64, 128][ri(rng, 0, 2)]
        ml = int(wt.dwt_max_level(n, wt.to_wavelet(w).dec_len))
        if ml < 1:
            n = 128
            ml = int(wt.dwt_max_level(n, wt.to_wavelet(w).dec_len))
        lev = ri(rng, 1, ml)
        B = np.asarray(crdict.wavelet_basis(n, w, level=lev))
        x = rv(rng, (n,))
        ctx.close(lop.dwt(n, wavelet=w, level=lev, basis=True).times(J(x)), B @ x, "dwt-equals-dense", tol=tol)
    elif k == 4:
        n = ri(rng, 1, 60)
        B = np.asarray(crdict.random_onb(key(rng), n))
    else:
        n = ri(rng, 2, 60)
        m = ri(rng, 1, n)
        B = np.asarray(crdict.random_orthonormal_rows(key(rng), m, n)).T
        ctx.ok(B.shape == (n, m), "orthonormal-rows-shape")
    ctx.close(B.conj().T @ B, np.eye(B.shape[1]), "basis-orthonormal", tol=tol)
    if k == 0 and n >= 2:
        T = np.asarray(crdict.dirac_hadamard_cosine_basis(n))
        ctx.close(T, np.hstack([np.eye(n), B, np.asarray(crdict.cosine_basis(n))]), "three-ortho-layout", tol=tol)
    ctx.nontrivial(kind=k, shape=B.shape, seed=i if k < 4 else int(rng.integers(1 << 30)))


SHAPES2D = [((16, 32), (0, 1)), ((32, 16), (0, 1)), ((16, 32), (1, 0)), ((16, 4, 32), (0, 2)), ((32, 3, 16), (2, 0)), ((16, 8, 4), (0, 1)),
            ((8, 16, 2), (1, 0)), ((3, 16, 8), (1, 2)), ((12, 20, 5), (0, 1)), ((5, 9, 14), (2, 1)), ((8, 16, 2, 3), (0, 1)), ((2, 8, 3, 16), (1, 3)),
            ((2, 16, 3, 8), (3, 1)), ((7, 33), (0, 1)), ((33, 7), (1, 0))]


@group("C04", quick=len(SHAPES2D), thorough=8 * len(SHAPES2D))
def wavelets2d(ctx, i):
    """every placement of the two transform axes among the axes of the array; several levels"""
    rng = ctx.rng
    sh, axes = SHAPES2D[i % len(SHAPES2D)]
    w = ['haar', 'db2'][ri(rng, 0, 1)]
    ml = min(int(wt.dwt_max_level(sh[a], wt.to_wavelet(w).dec_len)) for a in axes)
    if ml < 1:
        w, ml = 'haar', min(int(wt.dwt_max_level(sh[a], 2)) for a in axes)
    full = all((sh[a] & (sh[a] - 1)) == 0 for a in axes)
    for lev in sorted({1, ml, ri(rng, 1, ml)}):
        for basis in (False, True):
            W = lop.dwt2D(sh, wavelet=w, level=lev, axes=axes, basis=basis)
            if basis:
                times, trans, ish, osh = W.trans, W.times, W.output_shape, W.input_shape
            else:
                times, trans, ish, osh = W.times, W.trans, W.input_shape, W.output_shape
            p = dict(shape=str(sh), axes=str(axes), w=w, lev=lev, basis=basis)
            want = list(sh)
            for a in axes:
                want[a] = 1 << (sh[a] - 1).bit_length()
            ctx.ok(tuple(ish) == sh and tuple(osh) == tuple(want), "wavelets2d:shape", got=str(osh), **p)
            x, z = signal(rng, ish), signal(rng, ish)
            y, v = np.asarray(times(J(x))), np.asarray(times(J(z)))
            nx, nz = np.linalg.norm(x), np.linalg.norm(z)
            ctx.ok(y.shape == tuple(osh), "wavelets2d:output-shape", **p)
            ctx.close(np.linalg.norm(y) ** 2, nx ** 2, "wavelets2d:energy", scale=nx ** 2, tol=1e-7, **p)
            ctx.close(np.vdot(v, y), np.vdot(z, x), "wavelets2d:inner-product", scale=nx * nz, tol=1e-7, **p)
            ctx.close(trans(J(y)), x, "wavelets2d:reconstruction", scale=nx, tol=1e-7, **p)
            if full:
                u = signal(rng, osh)
                b = np.asarray(trans(J(u)))
                ctx.close(np.linalg.norm(b) ** 2, np.linalg.norm(u) ** 2, "wavelets2d:energy-adjoint", scale=np.linalg.norm(u) ** 2, tol=1e-7, **p)
                ctx.close(times(J(b)), u, "wavelets2d:analysis-of-synthesis", scale=np.linalg.norm(u), tol=1e-7, **p)
        ctx.nontrivial(x=float(x.ravel()[0]), **p)
