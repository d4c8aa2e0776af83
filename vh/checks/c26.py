"""C26: trackers see the run that happened; solvers are pure, repeatable and transformable (jit, vmap)."""
import contextlib
import io
import os
import re
import subprocess
import sys
from typing import NamedTuple

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse as crs
import cr.sparse.lop as lop
import cr.sparse.opt as opt
import cr.sparse.sls as sls
import cr.sparse.fom as fom
import cr.sparse.dict as crdict
import cr.sparse.geo as geo
import cr.sparse.cvx.spgl1 as spgl1
import cr.sparse.cvx.l1ls as l1ls
import cr.sparse.cvx.focuss as focuss
import cr.sparse.cvx.adm.yall1 as yall1
import cr.sparse.block.bsbl as bsbl
import cr.sparse.cluster.vq as vq
import cr.sparse.cluster.ssc as ssc
import cr.sparse.cluster.spectral as spectral
import cr.sparse.cs.cs1bit as cs1bit
from cr.sparse.opt import cg, pcg
from cr.sparse.pursuit import htp, iht, sp, cosamp, omp, mp
from vh.core import group
from vh.lopcat import rv, ri, key

J = jnp.asarray
nrm = np.linalg.norm


# ---------------------------------------------------------------- trackers seen by the solvers

class Recorder:
    def __init__(self):
        self.ev = []

    def __call__(self, state, more=False):
        f = {k: np.array(getattr(state, k)) for k in ("x", "x_I", "I", "r", "r_norm_sqr", "r_norm", "iterations") if hasattr(state, k)}
        self.ev.append((f, bool(more)))


def full(f, n, dt):
    if "x" in f:
        return f["x"]
    x = np.zeros(n, dt)
    x[f["I"]] = f["x_I"]
    return x


def sensing(rng, m, n, cplx=False):
    A = rv(rng, (m, n), cplx)
    return A / nrm(A, axis=0)


def sparse(rng, n, K, cplx=False):
    x = np.zeros(n, complex if cplx else float)
    v = np.sign(rng.normal(size=K)) * (1 + rng.random(K))
    x[rng.choice(n, K, replace=False)] = v * (np.exp(2j * np.pi * rng.random(K)) if cplx else 1)
    return x


TRACKED = ["sp.operator_solve", "sp.solve", "cosamp.operator_solve", "cosamp.solve", "mp.solve", "mp.matrix_solve",
           "spgl1.solve_lasso", "spgl1.solve_lasso_jit", "spgl1.solve_bpic", "spgl1.solve_bpic_jit", "spgl1.solve_bp", "spgl1.solve_bp_jit"]


@group("C26", quick=24, thorough=192)
def tracked(ctx, i):
    rng = ctx.rng
    nm = TRACKED[i % len(TRACKED)]
    m, n, K = ri(rng, 24, 40), ri(rng, 45, 60), ri(rng, 2, 5)
    cplx = (i // len(TRACKED)) % 2 == 1 and not nm.startswith("mp")
    A = sensing(rng, m, n, cplx)
    x0 = sparse(rng, n, K, cplx) * 10. ** rng.uniform(-2, 2)
    noise = rng.random() < .5
    b = A @ x0 + noise * .02 * nrm(x0) * rv(rng, m, cplx) / np.sqrt(m)
    T = lop.matrix(J(A))
    mod, fn = nm.split(".")
    f = getattr(globals()[mod], fn)
    opts = {}
    if mod == "spgl1":
        opts["options"] = spgl1.SPGL1Options(max_iters=ri(rng, 2, 60))
        extra = {"lasso": (.7 * np.abs(x0).sum(),), "bpic": (.1 * nrm(b),), "bp": ()}[fn.split("_")[1]]
    elif mod == "mp":
        extra = ()
        opts["max_iters"] = ri(rng, 1, 25)
    else:
        extra = (K,)
        if rng.random() < .5:
            opts["max_iters"] = ri(rng, 1, 8)
    first = J(A) if nm == "mp.matrix_solve" else T
    p = dict(solver=nm, m=m, n=n, K=K, cplx=cplx, noise=noise)
    rec = Recorder()
    sol = f(first, J(b), *extra, tracker=rec, **opts)
    jax.block_until_ready(sol)
    jax.effects_barrier()
    ev = rec.ev
    if not ctx.ok(len(ev) > 0, "tracked:called", **p):
        return
    its = [int(e[0]["iterations"]) for e in ev]
    ctx.nontrivial(its=len(its), b=b[0], **p)
    ctx.ok(its == list(range(its[0], its[0] + len(its))) and its[0] in (0, 1), "tracked:once-per-iteration", its=str(its), **p)
    ctx.ok(its[-1] == int(sol.iterations), "tracked:last-iteration", its=str(its), got=int(sol.iterations), **p)
    ctx.ok([e[1] for e in ev] == [True] * (len(ev) - 1) + [False], "tracked:more", more=str([e[1] for e in ev]), **p)
    S = nrm(b)
    dt = A.dtype
    for e, _ in ev:
        xt = full(e, n, dt)
        # the state shown is a state of this problem, at its scale
        ctx.close(e["r"], b - A @ xt, "tracked:residual", scale=S, it=int(e["iterations"]), **p)
        if "r_norm_sqr" in e:
            ctx.leq(abs(float(e["r_norm_sqr"]) - nrm(e["r"]) ** 2), 1e-7 * S ** 2, "tracked:residual-norm", **p)
        if "r_norm" in e:
            ctx.leq(abs(float(e["r_norm"]) - nrm(e["r"])), 1e-7 * S, "tracked:residual-norm", **p)
    last = ev[-1][0]
    ctx.close(full(last, n, dt), np.asarray(sol.x), "tracked:last-is-solution", scale=nrm(x0), **p)
    ctx.close(last["r"], np.asarray(sol.r), "tracked:last-residual", scale=S, **p)
    quiet = f(first, J(b), *extra, **opts)
    ctx.close(quiet.x, np.asarray(sol.x), "tracked:observation-changes-nothing", tol=1e-6, scale=nrm(x0), **p)
    ctx.ok(int(quiet.iterations) == int(sol.iterations), "tracked:observation-changes-nothing", a=int(quiet.iterations), b=int(sol.iterations), **p)
    # the library's own tracker on the same run
    pt = crs.ProgressTracker(x0=x0, every=ri(rng, 1, 4))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        s2 = f(first, J(b), *extra, tracker=pt, **opts)
        jax.block_until_ready(s2)
        jax.effects_barrier()
    ctx.ok([int(v) for v in pt.iterations] == its, "tracked:progress-iterations", got=str(pt.iterations), **p)
    if len(pt.r_norms) == len(ev):
        ctx.close(np.array(pt.r_norms), np.array([nrm(e["r"]) for e, _ in ev]), "tracked:progress-r-norms", tol=1e-6, scale=S * len(ev), **p)
        ctx.close(np.array(pt.x_norms), np.array([nrm(full(e, n, dt)) for e, _ in ev]), "tracked:progress-x-norms", tol=1e-6, scale=nrm(x0) * len(ev), **p)
        err = [nrm(x0 - full(e, n, dt)) / nrm(x0) for e, _ in ev]
        for g, w in zip(pt.snrs, err):
            if w > 1e-7:
                ctx.leq(abs(g + 20 * np.log10(w)), 1e-2, "tracked:progress-snr", got=g, want=-20 * np.log10(w), **p)
            else:
                ctx.leq(100, g, "tracked:progress-snr", got=g, **p)
    out = buf.getvalue().splitlines()
    heads = [int(v) for v in re.findall(r"^\[(\d+)\]", buf.getvalue(), re.M)]
    ctx.ok(heads == [t for t in its if t % pt._every == 0 or t == its[-1]] if hasattr(pt, "_every") else True, "tracked:progress-every", got=str(heads), its=str(its), **p)
    ctx.ok(sum("converged" in l for l in out) == 1 and f"converged in {its[-1]} iterations" in out[-1], "tracked:progress-converged-once", count=sum("converged" in l for l in out), **p)


class S1(NamedTuple):
    x: np.ndarray
    r: np.ndarray
    iterations: int


class S2(NamedTuple):
    x_I: np.ndarray
    I: np.ndarray
    r_norm_sqr: float
    iterations: int


class S3(NamedTuple):
    r: np.ndarray
    iterations: int


@group("C26", quick=16, thorough=160)
def trackers(ctx, i):
    """The trackers alone, on fabricated runs."""
    rng = ctx.rng
    for t in range(8):
        kind = (i + t) % 3
        cplx = bool(rng.integers(2))
        n, m, K = ri(rng, 4, 20), ri(rng, 2, 9), ri(rng, 1, 4)
        every = ri(rng, 1, 7)
        a = ri(rng, 0, 3)
        L = ri(rng, 1, 18)
        x0 = rv(rng, n, cplx) if rng.random() < .6 else None
        p = dict(kind=kind, every=every, a=a, L=L, x0=x0 is not None)
        pt = crs.ProgressTracker(x0=x0, every=every) if every > 1 else crs.ProgressTracker(x0=x0)
        nt, want, buf = io.StringIO(), [], io.StringIO()
        for k in range(a, a + L):
            more = k < a + L - 1
            r = rv(rng, m, cplx)
            if kind == 0:
                s = S1(x=rv(rng, n, cplx), r=r, iterations=k)
                xx = s.x
            elif kind == 1:
                I = rng.choice(n, min(K, n), replace=False)
                s = S2(x_I=rv(rng, I.size, cplx), I=I, r_norm_sqr=float(nrm(r) ** 2), iterations=k)
                xx = np.zeros(n, s.x_I.dtype)
                xx[I] = s.x_I
            else:
                s = S3(r=r, iterations=k)
                xx = np.zeros(n)
            want.append((k, nrm(xx), nrm(r), None if x0 is None else 20 * np.log10(nrm(x0) / nrm(x0 - xx))))
            with contextlib.redirect_stdout(buf):
                pt(s, more=more)
            with contextlib.redirect_stdout(nt):
                crs.norm_tracker(s, more=more)
                ctx.ok(crs.noop_tracker(s, more=more) is None, "trackers:noop")
        ctx.nontrivial(v=want[0][2], **p)
        ctx.ok([int(v) for v in pt.iterations] == [w[0] for w in want], "trackers:iterations", got=str(pt.iterations), **p)
        ctx.close(np.array(pt.x_norms), np.array([w[1] for w in want]), "trackers:x-norms", scale=10, **p)
        ctx.close(np.array(pt.r_norms), np.array([w[2] for w in want]), "trackers:r-norms", scale=10, **p)
        if x0 is None:
            ctx.ok(len(pt.snrs) == 0, "trackers:no-snr", **p)
        else:
            ctx.close(np.array(pt.snrs), np.array([w[3] for w in want]), "trackers:snrs", scale=10, **p)
        out, out2 = buf.getvalue(), nt.getvalue()
        rows = re.findall(r"^\[(\d+)\] x_norm: (\S+), r_norm: ([^\s,]+)(?:, SNR: (\S+) dB)?$", out, re.M)
        exp = [w for w in want if w[0] % every == 0 or w is want[-1]]
        if ctx.ok([int(r[0]) for r in rows] == [w[0] for w in exp], "trackers:printed-rows", got=out, **p):
            for r, w in zip(rows, exp):
                good = abs(float(r[1]) - w[1]) <= 6e-3 * w[1] + 1e-12 and abs(float(r[2]) - w[2]) <= 6e-3 * w[2]
                ctx.ok(good and (w[3] is None) == (r[3] == "") and (w[3] is None or abs(float(r[3]) - w[3]) < 6e-3), "trackers:printed-values", row=str(r), want=str(w), **p)
        end = f"Algorithm converged in {want[-1][0]} iterations."
        ctx.ok(out.count("converged") == 1 and out.rstrip().endswith(end), "trackers:converged", out=out[-90:], **p)
        ctx.ok(len(re.findall(r"^\[\d+\]", out2, re.M)) == L and out2.count("converged") == 1, "trackers:norm-tracker", out=out2[-90:], **p)
        if t == 0:
            fig, ax = plt.subplots()
            pt.plot_progress(ax)
            ctx.close(np.asarray(ax.lines[0].get_ydata()), np.array(pt.r_norms), "trackers:plot", scale=10, **p)
            if x0 is not None:
                other = [q for q in fig.axes if q is not ax]
                ctx.ok(len(other) == 1 and np.allclose(other[0].lines[0].get_ydata(), pt.snrs), "trackers:plot-snr", **p)
            plt.close(fig)
            b2 = io.StringIO()
            with contextlib.redirect_stdout(b2):
                crs.print_tracker("STATE", more=True)
                crs.print_tracker(s, more=False)
            ctx.ok(b2.getvalue().startswith("STATE\n") and b2.getvalue().count("converged") == 1, "trackers:print-tracker")
            r = rv(rng, m)
            q = crs.RecoveryFullSolution(x=J(x0 if x0 is not None else r), r=J(r), iterations=7, n_times=11, n_trans=13)
            txt = str(q)
            ctx.ok(all(w in txt for w in ("iterations 7", "n_times 11", "n_trans 13", "r_norm %e" % nrm(r))), "trackers:solution-str", got=txt)


# ---------------------------------------------------------------- purity, repeatability, jit, vmap

def b_mat(rng, m=24, n=40, K=3):
    A = sensing(rng, m, n)
    return A, (lambda: A @ sparse(rng, n, K)), m, n, K


def spd(rng, n=12):
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    return Q @ np.diag(np.linspace(1, 6, n)) @ Q.T


def tall(rng, m=30, n=12):
    return rng.normal(size=(m, n)) / np.sqrt(m)


CAT = {}


def entry(name, tol=1e-6, ab=False):
    """A builder returns (f, draw): f maps one data array to a tuple of arrays; ``ab``: absolute comparison only after convergence."""
    def deco(fn):
        CAT[name] = (fn, tol)
        return fn
    return deco


for _n, _mod in (("omp", omp), ("sp", sp), ("cosamp", cosamp), ("htp", htp), ("iht", iht)):
    def _bld(rng, mod=_mod):
        A, draw, m, n, K = b_mat(rng, 30, 40, 2)
        dense = lambda s: (jnp.zeros(n).at[s.I].set(s.x_I), s.r)
        return (lambda y: dense(mod.matrix_solve(J(A), y, K))), draw
    CAT[_n + ".matrix"] = (_bld, 1e-3)
    if _n != "omp":
        def _bld2(rng, mod=_mod):
            A, draw, m, n, K = b_mat(rng, 30, 40, 2)
            T = lop.matrix(J(A))
            return (lambda y: (jnp.zeros(n).at[(s := mod.operator_solve(T, y, K)).I].set(s.x_I), s.r)), draw
        CAT[_n + ".operator"] = (_bld2, 1e-3)


@entry("mp.matrix", 1e-6)
def _(rng):
    A, draw, m, n, K = b_mat(rng)
    return (lambda y: tuple(mp.matrix_solve(J(A), y, max_iters=9)[:2])), draw


@entry("mp.operator", 1e-6)
def _(rng):
    A, draw, m, n, K = b_mat(rng)
    T = lop.matrix(J(A))
    return (lambda y: tuple(mp.solve(T, y, max_iters=9)[:2])), draw


@entry("cg", 1e-6)
def _(rng):
    B = spd(rng)
    return (lambda y: (cg.solve(J(B), y, max_iters=40, res_norm_rtol=1e-8).x,)), lambda: rng.normal(size=12)


@entry("pcg", 1e-5)
def _(rng):
    B = spd(rng)
    d = np.diag(B)
    return (lambda y: (pcg.solve(lambda v: J(B) @ v, y, max_iters=40, tol=1e-9, M=lambda r: r / J(d)).x,)), lambda: rng.normal(size=12)


@entry("lsqr", 1e-5)
def _(rng):
    B = tall(rng)
    T = lop.matrix(J(B))
    return (lambda y: (sls.lsqr(T, y, jnp.zeros(12), max_iters=40).x,)), lambda: rng.normal(size=30)


@entry("ista", 1e-7)
def _(rng):
    B = tall(rng)
    a = .9 / np.linalg.norm(B, 2) ** 2
    T = lop.matrix(J(B))
    return (lambda y: (sls.ista(T, y, jnp.zeros(12), a, max_iters=15).x,)), lambda: rng.normal(size=30)


@entry("fista", 1e-7)
def _(rng):
    B = tall(rng)
    a = .9 / np.linalg.norm(B, 2) ** 2
    T = lop.matrix(J(B))
    return (lambda y: (sls.fista(T, y, jnp.zeros(12), a, max_iters=15).x,)), lambda: rng.normal(size=30)


@entry("power", 1e-4)
def _(rng):
    B = spd(rng)
    B = B + 10 * np.outer(B[0], B[0]) / nrm(B[0]) ** 2
    T = lop.matrix(J(B))
    return (lambda y: (jnp.atleast_1d(sls.power_iterations(T, y, max_iters=400).s),)), lambda: rng.normal(size=12)


@entry("spgl1.lasso", 1e-3)
def _(rng):
    A, draw, m, n, K = b_mat(rng)
    T = lop.matrix(J(A))
    return (lambda y: (spgl1.solve_lasso(T, y, 2., options=spgl1.SPGL1Options(opt_tol=1e-6, max_iters=400)).x,)), draw


@entry("spgl1.bp", 1e-3)
def _(rng):
    A, draw, m, n, K = b_mat(rng, 30, 40, 2)
    T = lop.matrix(J(A))
    return (lambda y: (spgl1.solve_bp(T, y, options=spgl1.SPGL1Options(max_iters=400)).x,)), draw


@entry("l1ls", 2e-3)
def _(rng):
    A, draw, m, n, K = b_mat(rng, 30, 40, 2)
    T = lop.matrix(J(A))
    return (lambda y: (l1ls.solve(T, y, .05, tol=1e-5).x,)), draw


@entry("fom.l1rls", 2e-3)
def _(rng):
    B = tall(rng)
    T = lop.matrix(J(B))
    return (lambda y: (fom.l1rls(T, y, .05, jnp.zeros(12), fom.FomOptions(max_iters=400, tol=1e-8)).x,)), lambda: rng.normal(size=30)


@entry("fom.lasso", 2e-3)
def _(rng):
    B = tall(rng)
    T = lop.matrix(J(B))
    return (lambda y: (fom.lasso(T, y, .6, jnp.zeros(12), fom.FomOptions(max_iters=400, tol=1e-8)).x,)), lambda: rng.normal(size=30)


@entry("focuss", 1e-4)
def _(rng):
    A, draw, m, n, K = b_mat(rng, 24, 40, 2)
    return (lambda y: (focuss.matrix_solve_noiseless(J(A), y, max_iters=6).x,)), draw


@entry("bsbl.em", 1e-5)
def _(rng):
    A = sensing(rng, 30, 40)

    def draw():
        x = np.zeros(40)
        s = 5 * int(rng.integers(8))
        x[s:s + 5] = 1 + rng.random(5)
        return A @ x + .01 * rng.normal(size=30)
    return (lambda y: (bsbl.bsbl_em(J(A), y, 5, bsbl.bsbl_em_options(max_iters=5)).x,)), draw


@entry("biht", 1e-7)
def _(rng):
    A = rng.normal(size=(60, 20))
    x = sparse(rng, 20, 3)
    return (lambda v: (cs1bit.biht(J(A), jnp.where(J(A) @ v >= 0, 1., -1.), 3, .02 / 3, max_iters=30).x_I,)), lambda: sparse(rng, 20, 3)


@entry("kmeans", 1e-8)
def _(rng):
    c = rng.normal(size=(3, 2)) * 8
    k = key(rng)
    return (lambda P: (s := vq.kmeans_with_seed(k, P, 3), (s.centroids, s.assignment))[1]), lambda: c[np.arange(24) % 3] + .3 * rng.normal(size=(24, 2))


@entry("ssc.omp", 1e-7)
def _(rng):
    return (lambda X: tuple(ssc.build_representation_omp(X, 2))[:1]), lambda: rng.normal(size=(6, 12))


for _n, _f in (("l1ball", lambda: opt.proj_l1_ball(1.5)), ("l2ball", lambda: opt.proj_l2_ball(1.5))):
    CAT["proj." + _n] = ((lambda rng, f=_f: ((lambda x, P=f(): (P(x),)), lambda: rng.normal(size=9) * 2)), 1e-9)
for _n, _f in (("l1", lambda: opt.prox_l1(.7)), ("l2", lambda: opt.prox_l2(.7)), ("owl1", lambda: opt.prox_owl1(jnp.linspace(1., .1, 9)))):
    CAT["prox." + _n] = ((lambda rng, f=_f: ((lambda x, P=f(): (P.prox_op(x, 1.3), jnp.atleast_1d(P.func(x)))), lambda: rng.normal(size=9) * 2)), 1e-9)


@entry("thresholds", 1e-9)
def _(rng):
    return (lambda x: (geo.hard_threshold(x, .3), geo.soft_threshold(x, .3), geo.half_threshold(x, .3), geo.soft_threshold_percentile(x, 40.))), lambda: rng.normal(size=15)


@entry("dict.metrics", 1e-8)
def _(rng):
    def f(A):
        A = A / jnp.linalg.norm(A, axis=0)
        return (crdict.gram(A), jnp.atleast_1d(crdict.coherence(A)), crdict.babel(A), jnp.atleast_1d(crdict.upper_frame_bound(A)))
    return f, lambda: rng.normal(size=(6, 11))


OPS = ["dct", "fourier", "walsh", "dwt", "conv", "circulant", "derivative", "tv", "running", "hcat", "compose", "restriction"]
for _k in OPS:
    def _op(rng, k=_k):
        n = 16
        T = {"dct": lambda: lop.cosine_basis(n), "fourier": lambda: lop.fourier_basis(n), "walsh": lambda: lop.walsh_hadamard_basis(n),
             "dwt": lambda: lop.dwt(n, wavelet="db2", level=2, basis=True), "conv": lambda: lop.convolve(n, J(rng.normal(size=3))),
             "circulant": lambda: lop.circulant(n, J(rng.normal(size=5))), "derivative": lambda: lop.first_derivative(n), "tv": lambda: lop.tv(n),
             "running": lambda: lop.running_average(n, 3), "hcat": lambda: lop.hcat(lop.identity(8), lop.cosine_basis(8)),
             "compose": lambda: lop.compose(lop.matrix(J(rng.normal(size=(9, n)))), lop.cosine_basis(n)),
             "restriction": lambda: lop.restriction(n, jnp.array([1, 4, 9]))}[k]()
        return (lambda x: (T.times(x), T.trans(T.times(x)))), lambda: rng.normal(size=n)
    CAT["lop." + _k] = (_op, 1e-9)

NAMES = sorted(CAT)


def state():
    c = jax.config
    return (c.jax_enable_x64, c.jax_debug_nans, c.jax_disable_jit, c.jax_default_matmul_precision, str(np.geterr()), str(np.get_printoptions()),
            np.random.get_state()[1].tobytes(), os.getcwd(), tuple(sorted(os.environ)))


@group("C26", quick=len(NAMES), thorough=6 * len(NAMES))
def transforms(ctx, i):
    rng = ctx.rng
    nm = NAMES[i % len(NAMES)]
    bld, tol = CAT[nm]
    f, draw = bld(rng)
    Y = [np.array(draw()) for _ in range(3)]
    keep = [y.copy() for y in Y]
    p = dict(entry=nm)
    ctx.nontrivial(y=Y[0].ravel()[0], **p)
    s0 = state()
    out = [tuple(np.asarray(v) for v in f(J(y))) for y in Y]
    ctx.ok(state() == s0, "transforms:global-state", **p)
    for o in out:
        for v in o:
            ctx.finite(v, "transforms:finite", **p)
    # repeat, in another order, after other work: bitwise the same
    for j in (2, 0, 1):
        again = f(J(Y[j]))
        ctx.ok(all(np.array_equal(np.asarray(a), b) for a, b in zip(again, out[j])), "transforms:repeatable", j=j, **p)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(Y, keep)), "transforms:inputs-untouched", **p)
    g = jax.jit(f)
    for y, o in zip(Y, out):
        for q, (a, b) in enumerate(zip(g(J(y)), o)):
            ctx.close(a, b, "transforms:jit", tol=tol, scale=max(nrm(b), nrm(y)), q=q, **p)
    V = jax.vmap(f)(J(np.stack(Y)))
    for q, a in enumerate(V):
        for j in range(3):
            b = out[j][q]
            ctx.close(np.asarray(a)[j], b, "transforms:vmap", tol=tol, scale=max(nrm(b), nrm(Y[j])), q=q, j=j, **p)


@group("C26", quick=12, thorough=72)
def numpy_inputs(ctx, i):
    """Plain numpy arrays go in and come back unchanged (functions that work on the host)."""
    rng = ctx.rng
    import cr.sparse.cluster as cl
    k = 3
    lab = rng.integers(0, k, 20)
    lab[:k] = np.arange(k)
    prd = rng.integers(0, k, 20)
    prd[:k] = np.arange(k)
    W = np.abs(rng.normal(size=(30, 30)))
    W = W + W.T
    X = rng.normal(size=(5, 12))
    X /= nrm(X, axis=0)
    sizes = np.array([5, 7])
    ang = np.asarray(ssc.angles_between_points(J(X)))
    kk = key(rng)
    calls = [("clustering_error", lambda: cl.clustering_error(lab, prd)), ("clustering_error_k", lambda: cl.clustering_error_k(J(lab), J(prd), k)),
             ("laplacian", lambda: spectral.unnormalized(kk, J(W))), ("rw", lambda: spectral.normalized_random_walk_k(kk, J(W), 2)),
             ("sym", lambda: spectral.normalized_symmetric_fast_k(kk, J(W), 2)), ("affinity", lambda: ssc.rep_to_affinity(J(W))),
             ("angles-in", lambda: ssc.min_angles_inside_cluster(J(ang), sizes)), ("angles-out", lambda: ssc.min_angles_outside_cluster(J(ang), sizes)),
             ("sorted", lambda: ssc.sorted_neighbors(J(ang)))]
    arrs = [lab, prd, W, X, sizes, ang]
    keep = [a.copy() for a in arrs]
    s0 = state()
    ctx.nontrivial(l=str(lab.tolist()))

    def leaves(v):
        if hasattr(v, "__dict__") and not hasattr(v, "shape"):
            v = {a: b for a, b in vars(v).items()}
        return [np.asarray(u) for u in jax.tree_util.tree_leaves(v) if hasattr(u, "shape") or np.isscalar(u)]
    first = [leaves(f()) for _, f in calls]
    for (nm, f), a in list(zip(calls, first))[::-1]:
        b = leaves(f())
        ctx.ok(len(a) == len(b) and all(np.array_equal(u, v, equal_nan=u.dtype.kind in "fc") for u, v in zip(a, b)), "host:repeatable", call=nm)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(arrs, keep)), "host:inputs-untouched")
    ctx.ok(state() == s0, "host:global-state")


@group("C26", quick=2, thorough=4)
def imports(ctx, i):
    """Importing the library changes no global configuration."""
    mods = ["cr.sparse", "cr.sparse.lop", "cr.sparse.dict", "cr.sparse.data", "cr.sparse.opt", "cr.sparse.sls", "cr.sparse.fom", "cr.sparse.cvx.spgl1",
            "cr.sparse.cvx.l1ls", "cr.sparse.cvx.focuss", "cr.sparse.cvx.adm.yall1", "cr.sparse.block.bsbl", "cr.sparse.cluster.ssc", "cr.sparse.cluster.vq",
            "cr.sparse.cluster.spectral", "cr.sparse.cs.cs1bit", "cr.sparse.problems", "cr.sparse.ef", "cr.sparse.plots", "cr.sparse.vision", "cr.sparse.geo",
            "cr.sparse.pursuit.omp", "cr.sparse.pursuit.mp", "cr.sparse.pursuit.sp", "cr.sparse.pursuit.cosamp", "cr.sparse.pursuit.htp", "cr.sparse.pursuit.iht"]
    if i % 2:
        mods = mods[::-1]
    code = ("import jax,numpy as np,os,cr.nimble\n"
            "st=lambda:(jax.config.jax_enable_x64,jax.config.jax_debug_nans,jax.config.jax_disable_jit,str(np.geterr()),str(np.get_printoptions()),os.getcwd())\n"
            "np.random.seed(3);a=np.random.get_state()[1].tobytes();s=st()\n"
            f"import importlib\nfor m in {mods!r}: importlib.import_module(m)\n"
            "print('SAME' if s==st() and a==np.random.get_state()[1].tobytes() else 'CHANGED')\n")
    env = dict(os.environ)
    env["PYTHONPATH"] = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, capture_output=True, text=True)
    ctx.nontrivial(order=i % 2)
    ctx.ok(r.stdout.strip().endswith("SAME"), "imports:no-global-effect", out=r.stdout[-200:], err=r.stderr[-600:])
