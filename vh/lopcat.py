"""Catalogue of the library's linear-operator factories with independent dense models.

Each builder draws parameters from ``rng`` and returns a Case:
  op      the real operator built by /repo
  M       dense reference matrix (numpy) acting on the flattened input
  ins/outs input/output array shapes
  cplx    complex vectors are legitimate inputs
  axis    None, or the axis parameter for "apply along axis" on 2-D data
"""
import math
from dataclasses import dataclass, field
from typing import Any

import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.lop as lop
from cr.nimble import KEYS  # noqa: F401


@dataclass
class Case:
    name: str
    op: Any
    M: Any
    ins: tuple
    outs: tuple
    cplx: bool = True
    axis: Any = None          # not None: 2-D application along this axis is supported
    real_adj: bool = False    # adjoint in the real inner product only
    params: dict = field(default_factory=dict)
    unitary_cols: bool = False
    exact: bool = True


BUILDERS = {}


def b(fn):
    BUILDERS[fn.__name__] = fn
    return fn


def J(x):
    return jnp.asarray(x)


def ri(rng, lo, hi):
    return int(rng.integers(lo, hi + 1))


def rv(rng, shape, cplx=False):
    x = rng.normal(size=shape)
    if cplx:
        x = x + 1j * rng.normal(size=shape)
    return x


def key(rng):
    return jax.random.PRNGKey(int(rng.integers(0, 2 ** 31 - 1)))


# ------------------------------------------------------------------ basic
@b
def identity(rng):
    n = ri(rng, 1, 12)
    m = [None, ri(rng, 1, 14)][ri(rng, 0, 1)]
    ax = ri(rng, 0, 1)
    op = lop.identity(n, m, axis=ax)
    m = n if m is None else m
    return Case("identity", op, np.eye(m, n), (n,), (m,), True, ax, params=dict(n=n, m=m, ax=ax))


@b
def real_matrix(rng):
    m, n = ri(rng, 1, 9), ri(rng, 1, 9)
    A = rv(rng, (m, n))
    return Case("real_matrix", lop.real_matrix(J(A)), A, (n,), (m,), True, None, params=dict(m=m, n=n))


@b
def matrix(rng):
    m, n = ri(rng, 1, 9), ri(rng, 1, 9)
    c = rng.random() < 0.5
    A = rv(rng, (m, n), c)
    ax = ri(rng, 0, 1)
    return Case("matrix", lop.matrix(J(A), axis=ax), A, (n,), (m,), True, ax, params=dict(m=m, n=n, c=c, ax=ax))


@b
def sparse_real_matrix(rng):
    from jax.experimental.sparse import BCOO
    m, n = ri(rng, 2, 9), ri(rng, 2, 9)
    A = rv(rng, (m, n)) * (rng.random((m, n)) < 0.4)
    ax = ri(rng, 0, 1)
    return Case("sparse_real_matrix", lop.sparse_real_matrix(BCOO.fromdense(J(A)), axis=ax), A, (n,), (m,),
                False, ax, params=dict(m=m, n=n, ax=ax, nnz=int((A != 0).sum())))


@b
def diagonal(rng):
    n = ri(rng, 1, 10)
    c = rng.random() < 0.5
    d = rv(rng, (n,), c)
    ax = ri(rng, 0, 1)
    return Case("diagonal", lop.diagonal(J(d), axis=ax), np.diag(d), (n,), (n,), True, ax, params=dict(n=n, c=c, ax=ax))


@b
def scalar_mult(rng):
    n = ri(rng, 1, 10)
    c = rng.random() < 0.5
    a = complex(rng.normal(), rng.normal()) if c else float(rng.normal())
    return Case("scalar_mult", lop.scalar_mult(a, n), a * np.eye(n), (n,), (n,), True, 0, params=dict(n=n, c=c))


@b
def zero(rng):
    n = ri(rng, 1, 8)
    m = [None, ri(rng, 1, 9)][ri(rng, 0, 1)]
    ax = ri(rng, 0, 1)
    op = lop.zero(n, m, axis=ax)
    m = n if m is None else m
    return Case("zero", op, np.zeros((m, n)), (n,), (m,), True, ax, params=dict(n=n, m=m, ax=ax))


@b
def flipud(rng):
    n = ri(rng, 1, 11)
    return Case("flipud", lop.flipud(n), np.eye(n)[::-1], (n,), (n,), True, 0, params=dict(n=n))


@b
def sum_(rng):
    n = ri(rng, 1, 11)
    return Case("sum", lop.sum(n), np.ones((1, n)), (n,), (1,), True, 0, params=dict(n=n))


@b
def pad_zeros(rng):
    n, p, q = ri(rng, 1, 8), ri(rng, 0, 5), ri(rng, 0, 5)
    M = np.zeros((n + p + q, n))
    M[p:p + n] = np.eye(n)
    return Case("pad_zeros", lop.pad_zeros(n, p, q), M, (n,), (n + p + q,), True, None, params=dict(n=n, p=p, q=q))


@b
def symmetrize(rng):
    n = ri(rng, 1, 10)
    return Case("symmetrize", lop.symmetrize(n), np.vstack((np.eye(n)[::-1], np.eye(n))), (n,), (2 * n,), True, 0,
                params=dict(n=n))


@b
def restriction(rng):
    n = ri(rng, 2, 12)
    k = ri(rng, 1, n)
    dup = rng.random() < 0.3
    I = rng.choice(n, k, replace=dup)
    if rng.random() < 0.5:
        I = np.sort(I)
    ax = ri(rng, 0, 1)
    return Case("restriction", lop.restriction(n, J(I), axis=ax), np.eye(n)[I], (n,), (k,), True, ax,
                params=dict(n=n, I=I, ax=ax))


def _heavi(n, norm):
    L = np.tril(np.ones((n, n)))
    if norm:
        L = L / np.sqrt(np.arange(n, 0, -1))[None, :]
    return L


@b
def heaviside(rng):
    n = ri(rng, 1, 12)
    nm = bool(ri(rng, 0, 1))
    ax = ri(rng, 0, 1)
    op = lop.heaviside(n, axis=ax, normalized=nm) if rng.random() < .7 or nm else lop.cumsum(n, axis=ax)
    return Case("heaviside", op, _heavi(n, nm), (n,), (n,), True, ax, params=dict(n=n, nm=nm, ax=ax))


@b
def inv_heaviside(rng):
    n = ri(rng, 1, 12)
    nm = bool(ri(rng, 0, 1))
    ax = ri(rng, 0, 1)
    op = lop.inv_heaviside(n, axis=ax, normalized=nm) if rng.random() < .7 or nm else lop.diff(n, axis=ax)
    return Case("inv_heaviside", op, np.linalg.inv(_heavi(n, nm)), (n,), (n,), True, ax, params=dict(n=n, nm=nm, ax=ax))


@b
def reshape(rng):
    dims = [ri(rng, 1, 4) for _ in range(ri(rng, 1, 3))]
    size = int(np.prod(dims))
    divs = [d for d in range(1, size + 1) if size % d == 0]
    d0 = divs[ri(rng, 0, len(divs) - 1)]
    out = (d0, size // d0)
    order = ['C', 'F'][ri(rng, 0, 1)]
    ins = tuple(dims)
    P = np.reshape(np.arange(size).reshape(ins), out, order=order).ravel()
    return Case("reshape", lop.reshape(ins, out, order=order), np.eye(size)[P], ins, out, True, None,
                params=dict(i=ins, o=out, order=order))


@b
def arr2vec(rng):
    ins = tuple(ri(rng, 1, 4) for _ in range(ri(rng, 1, 3)))
    size = int(np.prod(ins))
    return Case("arr2vec", lop.arr2vec(ins), np.eye(size), ins, (size,), True, None, params=dict(i=ins))


@b
def dot(rng):
    nd = ri(rng, 1, 2)
    ins = tuple(ri(rng, 1, 6) for _ in range(nd))
    v = rv(rng, ins)
    adj = bool(ri(rng, 0, 1))
    M = v.ravel()[None, :]
    op = lop.dot(J(v), adjoint=adj)
    if adj:
        return Case("dot", op, M.T, (1,), ins, False, None, params=dict(i=ins, adj=adj))
    return Case("dot", op, M, ins, (1,), False, None, params=dict(i=ins, adj=adj))


# ------------------------------------------------------------------ transforms
@b
def fft(rng):
    m = ri(rng, 1, 12)
    n = m if rng.random() < 0.4 else m + ri(rng, 0, 6)
    mode = ['r2c', 'c2c'][ri(rng, 0, 1)]
    ax = ri(rng, 0, 1)
    M = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(m)) / n)
    op = lop.fft(m, n, axis=ax, mode=mode) if ax else lop.fft(m, n, mode=mode)
    # axis=0 operators serve vectors and matrices; axis=1 operators serve matrices
    return Case("fft", op, M, (m,), (n,), mode == 'c2c', ax, real_adj=(mode == 'r2c'),
                params=dict(m=m, n=n, mode=mode, ax=ax))


def _four(n):
    return np.exp(2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / np.sqrt(n)


@b
def fourier_basis(rng):
    n = ri(rng, 1, 17)
    return Case("fourier_basis", lop.fourier_basis(n), _four(n), (n,), (n,), True, 0, params=dict(n=n), unitary_cols=True)


@b
def dirac_fourier_basis(rng):
    n = ri(rng, 1, 13)
    return Case("dirac_fourier_basis", lop.dirac_fourier_basis(n), np.hstack((np.eye(n), _four(n))), (2 * n,), (n,),
                True, 0, params=dict(n=n))


def _dct(n):
    t = np.arange(n)
    C = np.cos(np.pi * (2 * t[:, None] + 1) * t[None, :] / (2 * n)) * math.sqrt(2.0 / n)
    C[:, 0] /= math.sqrt(2)
    return C


@b
def cosine_basis(rng):
    n = ri(rng, 1, 17)
    return Case("cosine_basis", lop.cosine_basis(n), _dct(n), (n,), (n,), False, 0, params=dict(n=n), unitary_cols=True)


@b
def walsh_hadamard_basis(rng):
    n = 2 ** ri(rng, 1, 5)
    H = np.array([[1.0]])
    while H.shape[0] < n:
        H = np.block([[H, H], [H, -H]])
    H = H[np.argsort((np.diff(H, axis=1) != 0).sum(axis=1), kind="stable")]     # sequency order
    return Case("walsh_hadamard_basis", lop.walsh_hadamard_basis(n), H / math.sqrt(n), (n,), (n,), True, None,
                params=dict(n=n), unitary_cols=True)


ORTHO_WAVELETS = ['haar', 'db2', 'db3', 'db4', 'sym4', 'coif1', 'db6']


def dwt_matrix(n, lo, hi, level):
    """[approx, detail_L, ..., detail_1] periodised analysis matrix for even n at every level."""
    def one(nn):
        L = len(lo)
        A = np.zeros((nn // 2, nn))
        D = np.zeros((nn // 2, nn))
        for k in range(nn // 2):
            for j in range(L):
                A[k, (2 * k + L // 2 - j) % nn] += lo[j]
                D[k, (2 * k + L // 2 - j) % nn] += hi[j]
        return A, D
    A, D = one(n)
    det = [D]
    acc = A
    nn = n // 2
    for _ in range(level - 1):
        a, d = one(nn)
        det.append(d @ acc)
        acc = a @ acc
        nn //= 2
    return np.vstack([acc] + det[::-1])


@b
def dwt(rng):
    import cr.wavelets as wt
    wname = ORTHO_WAVELETS[ri(rng, 0, len(ORTHO_WAVELETS) - 1)]
    w = wt.to_wavelet(wname)
    n = [16, 32, 64, 24, 30, 20, 50][ri(rng, 0, 6)]
    ml = int(wt.dwt_max_level(n, w.dec_len))
    if ml < 1:
        n, ml = 64, int(wt.dwt_max_level(64, w.dec_len))
    level = ri(rng, 1, ml)
    basis = bool(ri(rng, 0, 1))
    ax = ri(rng, 0, 1)
    m = 1 << (n - 1).bit_length()
    M = dwt_matrix(m, np.asarray(w.dec_lo, float), np.asarray(w.dec_hi, float), level)[:, :n]
    op = lop.dwt(n, wavelet=wname, level=level, axis=ax, basis=basis)
    p = dict(n=n, w=wname, level=level, basis=basis, ax=ax)
    if basis:
        return Case("dwt", op, M.T, (m,), (n,), False, ax, params=p, exact=False)
    return Case("dwt", op, M, (n,), (m,), False, ax, params=p, unitary_cols=True, exact=False)


def dwt2_matrix(hh, ww, lo, hi, level):
    W = np.eye(hh * ww)
    h, w = hh, ww
    for _ in range(level):
        S = np.eye(hh * ww).reshape(hh, ww, hh * ww)
        Rh = dwt_matrix(h, lo, hi, 1)
        Rw = dwt_matrix(w, lo, hi, 1)
        sub = S[:h, :w]
        sub = np.einsum('ab,bcz->acz', Rh, sub)
        sub = np.einsum('ab,cbz->caz', Rw, sub)
        S = S.copy()
        S[:h, :w] = sub
        W = S.reshape(hh * ww, -1) @ W
        h //= 2
        w //= 2
    return W


@b
def dwt2D(rng):
    import cr.wavelets as wt
    wname = ['haar', 'db2', 'haar', 'db3'][ri(rng, 0, 3)]
    w = wt.to_wavelet(wname)
    opts = {'haar': [(8, 8), (4, 16), (6, 8), (5, 7), (8, 12), (16, 4)], 'db2': [(8, 8), (8, 16), (12, 8), (9, 10)],
            'db3': [(16, 8), (10, 12), (8, 16)]}[wname]
    shape = opts[ri(rng, 0, len(opts) - 1)]
    ml = min(int(wt.dwt_max_level(shape[0], w.dec_len)), int(wt.dwt_max_level(shape[1], w.dec_len)))
    if ml < 1:
        shape = (16, 16)
        ml = int(wt.dwt_max_level(16, w.dec_len))
    level = ri(rng, 1, ml)
    basis = bool(ri(rng, 0, 1))
    hh, ww = [1 << (s - 1).bit_length() for s in shape]
    M = dwt2_matrix(hh, ww, np.asarray(w.dec_lo, float), np.asarray(w.dec_hi, float), level)
    pick = np.arange(hh * ww).reshape(hh, ww)[:shape[0], :shape[1]].ravel()
    M = M[:, pick]
    op = lop.dwt2D(shape, wavelet=wname, level=level, basis=basis)
    p = dict(shape=shape, w=wname, level=level, basis=basis)
    if basis:
        return Case("dwt2D", op, M.T, (hh, ww), shape, False, None, params=p, exact=False)
    return Case("dwt2D", op, M, shape, (hh, ww), False, None, params=p, unitary_cols=True, exact=False)


# ------------------------------------------------------------------ calculus / TV
def _fd(n, kind, dx):
    D = np.zeros((n, n))
    for i in range(n):
        if kind == 'forward' and i < n - 1:
            D[i, i + 1], D[i, i] = 1, -1
        if kind == 'backward' and i > 0:
            D[i, i], D[i, i - 1] = 1, -1
        if kind == 'centered' and 0 < i < n - 1:
            D[i, i + 1], D[i, i - 1] = .5, -.5
    return D / dx


@b
def first_derivative(rng):
    kind = ['forward', 'backward', 'centered'][ri(rng, 0, 2)]
    n = ri(rng, 3, 12)
    dx = float([1.0, 0.5, 2.0, 0.1][ri(rng, 0, 3)])
    return Case("first_derivative", lop.first_derivative(n, dx=dx, kind=kind), _fd(n, kind, dx), (n,), (n,), True, None,
                params=dict(n=n, dx=dx, kind=kind))


@b
def second_derivative(rng):
    n = ri(rng, 3, 12)
    dx = float([1.0, 0.5, 2.0, 0.1][ri(rng, 0, 3)])
    D = np.zeros((n, n))
    for i in range(1, n - 1):
        D[i, i - 1:i + 2] = np.array([1, -2, 1]) / dx / dx
    return Case("second_derivative", lop.second_derivative(n, dx=dx), D, (n,), (n,), True, None, params=dict(n=n, dx=dx))


def tv_matrix(n, kind):
    D = -np.eye(n) + np.eye(n, k=1)
    if kind == 'regular':
        D[-1] = 0
    elif kind == 'circular':
        D[-1, 0] += 1
    return D


@b
def tv(rng):
    kind = ['regular', 'dirichlet', 'circular'][ri(rng, 0, 2)]
    n = ri(rng, 2, 12)
    ax = ri(rng, 0, 1)
    return Case("tv", lop.tv(n, kind=kind, axis=ax), tv_matrix(n, kind), (n,), (n,), True, ax,
                params=dict(n=n, kind=kind, ax=ax))


def tv2D_forward(rng):
    """Forward map only (the adjoint is a recorded finding)."""
    kind = ['regular', 'dirichlet', 'circular'][ri(rng, 0, 2)]
    h, w = ri(rng, 2, 6), ri(rng, 2, 6)
    Dv = np.kron(tv_matrix(h, kind), np.eye(w))
    Dh = np.kron(np.eye(h), tv_matrix(w, kind))
    return Case("tv2D", lop.tv2D((h, w), kind=kind), Dh + 1j * Dv, (h, w), (h, w), False, None,
                params=dict(h=h, w=w, kind=kind))


# ------------------------------------------------------------------ convolution / filters
def conv_matrix(n, h, offset):
    m = len(h)
    M = np.zeros((n, n), dtype=np.asarray(h).dtype)
    for i in range(n):
        for j in range(n):
            k = i + offset - j
            if 0 <= k < m:
                M[i, j] = h[k]
    return M


@b
def convolve(rng):
    n, m = ri(rng, 1, 12), ri(rng, 1, 9)
    c = rng.random() < 0.35
    h = rv(rng, (m,), c)
    off = ri(rng, 0, m - 1)
    ax = ri(rng, 0, 1)
    return Case("convolve", lop.convolve(n, J(h), offset=off, axis=ax), conv_matrix(n, h, off), (n,), (n,), c, ax,
                params=dict(n=n, m=m, off=off, c=c, ax=ax))


@b
def convolveND(rng):
    dnd = ri(rng, 2, 3)
    shape = tuple(ri(rng, 2, 5) for _ in range(dnd))
    fnd = 2 if dnd == 2 else ri(rng, 1, 3)
    hs = tuple(ri(rng, 1, 3) for _ in range(fnd))
    if rng.random() < .5:      # one filter side longer than the data
        big = ri(rng, 0, fnd - 1)
        hs = tuple(ri(rng, 4, 9) if a == big else s for a, s in enumerate(hs))
    c = rng.random() < 0.35
    h = rv(rng, hs, c)
    off = tuple(int(rng.choice([0, s - 1, ri(rng, 0, s - 1)])) for s in hs)
    axes = tuple(rng.choice(dnd, fnd, replace=False).tolist())
    if rng.random() < .6:
        axes = tuple(sorted(axes))
    kw = {}
    if rng.random() < 0.8:
        kw['offset'] = off
    else:
        off = (0,) * fnd
    if axes != tuple(range(fnd)) or rng.random() < 0.5:
        kw['axes'] = axes
    if fnd == 2 and rng.random() < 0.5:
        op = lop.convolve2D(shape, J(h), **kw)
    else:
        op = lop.convolveND(shape, J(h), **kw)
    size = int(np.prod(shape))
    M = np.zeros((size, size), dtype=h.dtype)
    H = np.transpose(h, np.argsort(axes)).reshape([hs[axes.index(a)] if a in axes else 1 for a in range(dnd)])
    O = [off[axes.index(a)] if a in axes else 0 for a in range(dnd)]
    for jf, jm in enumerate(np.ndindex(*shape)):
        for km in np.ndindex(*H.shape):
            im = tuple(jm[a] + km[a] - O[a] for a in range(dnd))
            if all(0 <= im[a] < shape[a] for a in range(dnd)):
                M[np.ravel_multi_index(im, shape), jf] += H[km]
    return Case("convolveND", op, M, shape, shape, c, None, params=dict(shape=shape, hs=hs, off=off, axes=axes, c=c))


@b
def running_average(rng):
    n = ri(rng, 4, 14)
    L = ri(rng, 1, n)
    ax = ri(rng, 0, 1)
    h = np.ones(L) / L
    return Case("running_average", lop.running_average(n, L, axis=ax), conv_matrix(n, h, (L - 1) // 2), (n,), (n,), True,
                ax, params=dict(n=n, L=L, ax=ax))


@b
def fir_filter(rng):
    n = ri(rng, 4, 14)
    L = ri(rng, 1, n)
    c = rng.random() < .4
    h = rv(rng, (L,), c)
    ax = ri(rng, 0, 1)
    return Case("fir_filter", lop.fir_filter(n, J(h), axis=ax), conv_matrix(n, h, (L - 1) // 2), (n,), (n,), True, ax,
                params=dict(n=n, L=L, c=c, ax=ax))


@b
def circulant(rng):
    n = ri(rng, 1, 13)
    r = ri(rng, 1, n)
    c = rv(rng, (r,))
    ax = ri(rng, 0, 1)
    cp = np.concatenate((c, np.zeros(n - r)))
    M = np.stack([np.roll(cp, j) for j in range(n)], axis=1)
    return Case("circulant", lop.circulant(n, J(c), axis=ax), M, (n,), (n,), False, ax, params=dict(n=n, r=r, ax=ax))


# ------------------------------------------------------------------ structured wrappers
@b
def windowed_op(rng):
    w = ri(rng, 2, 8)
    tn = w if rng.random() < .6 else ri(rng, 1, 8)
    overlap = ri(rng, 0, w - 1)
    m = ri(rng, 2, 30)
    kind = ri(rng, 0, 3)
    if kind == 0:
        A = rv(rng, (w, tn))
        T = lop.matrix(J(A))
        c = True
    elif kind == 1:
        A, T, c, tn = _dct(w), lop.cosine_basis(w), False, w
    elif kind == 3:
        A, T, c, tn = _four(w), lop.fourier_basis(w), True, w
    else:
        A = rv(rng, (w, tn), True)
        T, c = lop.matrix(J(A)), True
    offset = w - overlap
    nb = max(1, math.ceil((m - w) / offset) + 1)
    full = np.zeros((w + (nb - 1) * offset, nb * tn), dtype=A.dtype)
    for i in range(nb):
        full[i * offset:i * offset + w, i * tn:(i + 1) * tn] += A
    M = full[:m]
    ax = ri(rng, 0, 1)
    op = lop.windowed_op(m, T, overlap=overlap, axis=ax)
    return Case("windowed_op", op, M, (nb * tn,), (m,), c, ax,
                params=dict(w=w, tn=tn, ov=overlap, m=m, kind=kind, ax=ax))


@b
def block_diag(rng):
    k = ri(rng, 2, 4)
    ops, Ms = [], []
    anyc = False
    for _ in range(k):
        m, n = ri(rng, 1, 4), ri(rng, 1, 4)
        c = rng.random() < .3
        anyc |= c
        A = rv(rng, (m, n), c)
        ops.append(lop.matrix(J(A)))
        Ms.append(A)
    tot = sum(A.shape[0] for A in Ms), sum(A.shape[1] for A in Ms)
    M = np.zeros(tot, dtype=complex if anyc else float)
    r = c0 = 0
    for A in Ms:
        M[r:r + A.shape[0], c0:c0 + A.shape[1]] = A
        r += A.shape[0]
        c0 += A.shape[1]
    ax = ri(rng, 0, 1)
    return Case("block_diag", lop.block_diag(ops, axis=ax), M, (tot[1],), (tot[0],), True, ax,
                params=dict(k=k, tot=tot, c=anyc, ax=ax))


# ------------------------------------------------------------------ random dictionaries
def _from_key(rng, f_mtx, f_op, m, n, name, **p):
    """Reference = the matching matrix factory with the same key."""
    k = key(rng)
    A = np.asarray(f_mtx(k))
    return Case(name, f_op(k), A, (n,), (m,), name != 'sparse_binary_dict', p.get('ax'), params=dict(m=m, n=n, **p))


@b
def random_dict(rng):
    import cr.sparse.dict as crdict
    kind = ri(rng, 0, 4)
    m, n = ri(rng, 2, 9), ri(rng, 2, 9)
    nm = bool(ri(rng, 0, 1))
    ax = ri(rng, 0, 1)
    if kind == 0:
        return _from_key(rng, lambda k: crdict.gaussian_mtx(k, m, n, normalize_atoms=nm),
                         lambda k: lop.gaussian_dict(k, m, n, normalize_atoms=nm, axis=ax), m, n, "gaussian_dict", nm=nm, ax=ax)
    if kind == 1:
        return _from_key(rng, lambda k: crdict.rademacher_mtx(k, m, n, normalize_atoms=nm),
                         lambda k: lop.rademacher_dict(k, m, n, normalize_atoms=nm, axis=ax), m, n, "rademacher_dict", nm=nm, ax=ax)
    if kind == 2:
        d = ri(rng, 1, m)
        dense = bool(ri(rng, 0, 1))
        return _from_key(rng, lambda k: crdict.sparse_binary_mtx(k, m, n, d, normalize_atoms=nm, dense=True),
                         lambda k: lop.sparse_binary_dict(k, m, n, d, normalize_atoms=nm, dense=dense, axis=ax), m, n,
                         "sparse_binary_dict", nm=nm, ax=ax, d=d, dense=dense)
    if kind == 3:
        m, n = min(m, n), max(m, n)
        return _from_key(rng, lambda k: crdict.random_orthonormal_rows(k, m, n),
                         lambda k: lop.random_orthonormal_rows_dict(k, m, n, axis=ax), m, n, "random_orthonormal_rows_dict", ax=ax)
    return _from_key(rng, lambda k: crdict.random_onb(k, n), lambda k: lop.random_onb_dict(k, n, axis=ax), n, n,
                     "random_onb_dict", ax=ax)


NAMES = sorted(BUILDERS)


# ---------------------------------------------------------------- application along an axis of N-D arrays
def axis_family(rng, name, ax):
    """-> operator along axis `ax`, dense 1-D matrix"""
    from jax.experimental.sparse import BCOO
    import cr.sparse.dict as crdict
    import scipy.linalg
    n = ri(rng, 4, 9)
    m = ri(rng, 3, 9)
    if name == "matrix":
        A = rv(rng, (m, n), bool(rng.integers(2)))
        return lop.matrix(J(A), axis=ax), A
    if name == "sparse_real_matrix":
        A = rv(rng, (m, n)) * (rng.random((m, n)) < .5)
        return lop.sparse_real_matrix(BCOO.fromdense(J(A)), axis=ax), A
    if name == "diagonal":
        d = rv(rng, (n,), bool(rng.integers(2)))
        return lop.diagonal(J(d), axis=ax), np.diag(d)
    if name == "restriction":
        I = rng.choice(n, ri(rng, 1, n), replace=False)
        return lop.restriction(n, J(I), axis=ax), np.eye(n)[I]
    if name in ("heaviside", "inv_heaviside", "cumsum", "diff", "tv"):
        if name == "tv":
            k = str(rng.choice(["regular", "circular"]))
            return lop.tv(n, kind=k, axis=ax), tv_matrix(n, k)
        T1 = getattr(lop, name)(n)
        M = np.stack([np.asarray(T1.times(J(e))) for e in np.eye(n)], 1)
        return getattr(lop, name)(n, axis=ax), M
    if name == "convolve":
        h = rv(rng, (ri(rng, 1, 4),))
        off = ri(rng, 0, len(h) - 1)
        return lop.convolve(n, J(h), offset=off, axis=ax), conv_matrix(n, h, off)
    if name == "running_average":
        L = ri(rng, 1, min(5, n))
        return lop.running_average(n, L, axis=ax), conv_matrix(n, np.ones(L) / L, (L - 1) // 2)
    if name == "fir_filter":
        h = rv(rng, (3,))
        return lop.fir_filter(n, J(h), axis=ax), conv_matrix(n, h, 1)
    if name == "circulant":
        c = rv(rng, (n,))
        return lop.circulant(n, J(c), axis=ax), np.stack([np.roll(c, j) for j in range(n)], axis=1)
    if name == "dwt":
        b = bool(rng.integers(2))
        n = [8, 6, 7][ri(rng, 0, 2)]
        T1 = lop.dwt(n, wavelet="haar", level=2, basis=b)
        M = np.stack([np.asarray(T1.times(J(e))) for e in np.eye(T1.shape[1])], 1)
        return lop.dwt(n, wavelet="haar", level=2, axis=ax, basis=b), M
    if name == "block_diag":
        As = [rv(rng, (ri(rng, 1, 4), ri(rng, 1, 4))) for _ in range(ri(rng, 2, 3))]
        return lop.block_diag([lop.matrix(J(A), axis=ax) for A in As], axis=ax), scipy.linalg.block_diag(*As)
    if name == "identity":
        return lop.identity(n, m, axis=ax), np.eye(m, n)
    if name == "zero":
        return lop.zero(n, m, axis=ax), np.zeros((m, n))
    if name == "fft":
        n2 = n + ri(rng, 0, 3)
        return lop.fft(n, n2, axis=ax, mode="c2c"), np.fft.fft(np.eye(n2)[:, :n], axis=0)
    if name == "gaussian_dict":
        k = key(rng)
        A = np.asarray(crdict.gaussian_mtx(k, m, n))
        return lop.gaussian_dict(k, m, n, axis=ax), A
    if name == "windowed_op":
        A = rv(rng, (3, 4))
        T1 = lop.windowed_op(6, lop.matrix(J(A)), overlap=0)
        M = np.stack([np.asarray(T1.times(J(e))) for e in np.eye(T1.shape[1])], 1)
        return lop.windowed_op(6, lop.matrix(J(A)), overlap=0, axis=ax), M
    raise KeyError(name)


AXIS_FAMILIES = ["matrix", "sparse_real_matrix", "diagonal", "restriction", "heaviside", "inv_heaviside", "cumsum", "diff", "tv", "convolve",
                 "running_average", "fir_filter", "circulant", "dwt", "block_diag", "identity", "zero", "fft", "gaussian_dict", "windowed_op"]
