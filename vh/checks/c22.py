"""C22: 1-bit compressive sensing (binary IHT, renormalised fixed point iteration)."""
import contextlib
import io
import numpy as np
import jax
import jax.numpy as jnp
import cr.sparse.cs.cs1bit as c1
from vh.core import group
from vh.lopcat import rv, ri

J = jnp.asarray
nrm = np.linalg.norm


def ref_biht(Phi, y, K, tau, T):
    """x, r, mismatches, selection and sign margins after 0..T iterations (stops on agreement)"""
    x = np.zeros(Phi.shape[1])
    r = y - np.sign(Phi @ x)
    mg = np.inf
    out = [(x, r, int(np.sum(r != 0)), mg)]
    while len(out) <= T and out[-1][2] > 0:
        u = x + tau / 2 * Phi.T @ r
        o = np.argsort(-np.abs(u), kind="stable")
        if K < len(u):
            mg = min(mg, (abs(u[o[K - 1]]) - abs(u[o[K]])) / max(nrm(u), 1e-300))
        x = np.zeros_like(u)
        x[o[:K]] = u[o[:K]]
        z = Phi @ x
        live = np.any((Phi != 0) & (x != 0), axis=1)        # the other rows give an exact zero
        mg = min(mg, np.min(np.abs(z[live]), initial=np.inf) / max(nrm(z), 1e-300))
        r = y - np.sign(z)
        out.append((x, r, int(np.sum(r != 0)), mg))
    return out


def problem(rng, M, N, K):
    Phi = rng.normal(size=(M, N))
    x = np.zeros(N)
    x[rng.permutation(N)[:K]] = rng.normal(size=K) + .3 * np.sign(rng.normal(size=K))
    return Phi, x / nrm(x)


def dense(st, N):
    x = np.zeros(N)
    x[np.asarray(st.I)] = np.asarray(st.x_I)
    return x


@group("C22", quick=10, thorough=80)
def biht_trace(ctx, i):
    """the state after t iterations against the documented recursion, many problems through one compiled solver"""
    rng = ctx.rng
    M, N, K = [(30, 20, 3), (60, 24, 4), (16, 32, 2), (100, 12, 1), (40, 10, 10)][i % 5]
    for t in range(20 if ctx.tier == "quick" else 30):
        Phi, x = problem(rng, M, N, K)
        if t % 5 == 2:           # sparse sensing matrices: rows that do not see the support
            Phi = Phi * (rng.random((M, N)) < float(rng.choice([.08, .2, .4])))
        y = np.sign(Phi @ x)
        if t % 10 == 2:          # bits of another signal
            y = np.sign(Phi @ rng.normal(size=N))
        if t % 4 == 3:
            y = y * np.where(rng.random(M) < .15, -1, 1)
        tau = float(rng.choice([1., .05, 1. / M]))
        T = ri(rng, 0, 8) if t % 3 else 40
        h = ref_biht(Phi, y, K, tau, T)
        if h[-1][3] < 1e-9:
            continue
        st = (c1.biht_jit if t else c1.biht)(J(Phi), J(y), K, tau, T)
        xr, rr, mm, _ = h[-1]
        p = dict(M=M, N=N, K=K, tau=tau, T=T, steps=len(h) - 1)
        ctx.nontrivial(x=Phi[0, 0], **p)
        I = np.asarray(st.I)
        ctx.ok(I.shape == (K,) and len(set(I.tolist())) == K and I.min() >= 0 and I.max() < N, "biht:support", got=I, **p)
        ctx.ok(int(st.iterations) == len(h) - 1, "biht:iterations", got=int(st.iterations), **p)
        ctx.close(dense(st, N), xr, "biht:solution", tol=1e-8, scale=max(nrm(xr), 1e-3), **p)
        ctx.close(st.r, rr, "biht:residual", scale=np.sqrt(M), **p)
        ctx.ok(int(st.n_mismatched_bits) == mm, "biht:mismatches", got=int(st.n_mismatched_bits), want=mm, **p)
        if mm == 0:
            ctx.ok(np.array_equal(np.sign(Phi @ dense(st, N)), y), "biht:consistent", **p)
        if T <= 8 and t % 2:
            q = rng.permutation(N)
            s2 = c1.biht_jit(J(Phi[:, q]), J(y), K, tau, T)
            ctx.close(dense(s2, N), dense(st, N)[q], "biht:column-order-irrelevant", tol=1e-8, scale=max(nrm(xr), 1e-3), **p)
            s3 = c1.biht_jit(J(Phi), J(-y), K, tau, T)
            ctx.close(dense(s3, N), -dense(st, N), "biht:sign-flip", tol=1e-8, scale=max(nrm(xr), 1e-3), **p)


@group("C22", quick=6, thorough=48)
def recovery(ctx, i):
    rng = ctx.rng
    N, K = 40, ri(rng, 2, 4)
    err = []
    for t in range(8):
        Phi, x = problem(rng, 800, N, K)
        y = np.asarray(c1.measure_1bit(J(Phi), J(x)))
        ctx.ok(np.array_equal(y, np.sign(Phi @ x)), "measure:signs", K=K)
        c = float(np.exp(3 * rng.normal()))
        ctx.ok(np.array_equal(np.asarray(c1.measure_1bit(J(Phi), J(c * x))), y), "measure:scale-blind", c=c)
        X = rng.normal(size=(N, 3))
        ctx.ok(np.array_equal(np.asarray(c1.measure_1bit(J(Phi), J(X))), np.sign(Phi @ X)), "measure:several-signals")
        st = c1.biht_jit(J(Phi), J(y), K, 1. / 800, 400)
        xs = dense(st, N)
        err.append(nrm(xs / max(nrm(xs), 1e-300) - x))
        ctx.nontrivial(K=K, e=float(err[-1]))
    # a statistical monitor: the typical error of 800 bits
    ctx.leq(float(np.median(err)), .1, "biht:recovers", errors=np.array(err), K=K)


def ref_rfp(Phi, y, x, lam, delta, inner, outer):
    for _ in range(outer):
        tau = delta / lam
        for k in range(inner):
            f = Phi.T @ (y * np.minimum(y * (Phi @ x), 0))
            f = f - (f @ x) * x
            h = x - delta * f
            u = np.sign(h) * np.maximum(np.abs(h) - tau, 0)
            prev, x = x, u / nrm(u)
        lam *= 1.5
    return x, prev


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@group("C22", quick=8, thorough=64)
def rfp(ctx, i):
    rng = ctx.rng
    M, N, K = [(60, 20, 3), (40, 50, 2)][i % 2]
    for t in range(3):
        Phi, x = problem(rng, M, N, K)
        y = np.sign(Phi @ x)
        g = np.asarray(c1.rfp_random_guess(J(Phi)))
        ctx.ok(g.shape == (N,) and abs(nrm(g) - 1) < 1e-9, "rfp:random-guess-unit", norm=nrm(g))
        ls = np.linalg.lstsq(Phi, y, rcond=None)[0]
        x0 = np.asarray(c1.rfp_lsqr_guess(J(Phi), J(y)))
        ctx.close(x0, ls / nrm(ls), "rfp:least-squares-guess", tol=1e-7, scale=1., M=M, N=N)
        if t == 2:
            x0 = g
        lam = float(rng.choice([10., 30.]))
        delta = float(rng.choice([.3, .05])) / M
        inner, outer = ri(rng, 1, 5), ri(rng, 1, 4)
        st = quiet(c1.rfp, J(Phi), J(y), J(x0), lambda_=lam, delta=delta, inner_iters=inner, outer_iters=outer)
        p = dict(M=M, N=N, lam=lam, delta=delta, inner=inner, outer=outer)
        ctx.nontrivial(x=Phi[0, 0], **p)
        xr, pr = ref_rfp(Phi, y, x0, lam, delta, inner, outer)
        ctx.close(st.x, xr, "rfp:solution", tol=1e-7, scale=1., **p)
        ctx.close(st.x_prev, pr, "rfp:previous", tol=1e-7, scale=1., **p)
        ctx.ok(int(st.iterations) == inner, "rfp:iterations", got=int(st.iterations), **p)
        ctx.leq(abs(nrm(st.x) - 1), 1e-9, "rfp:unit-norm", **p)
        # with hardly any shrinkage a small step lowers the one-sided penalty
        pen = lambda v: .5 * np.sum(np.minimum(y * (Phi @ v), 0) ** 2)
        s2 = quiet(c1.rfp, J(Phi), J(y), J(g), lambda_=1e9, delta=.01 / M, inner_iters=10, outer_iters=1)
        ctx.leq(pen(np.asarray(s2.x)), pen(g), "rfp:penalty-falls", slack=1e-9, **p)
