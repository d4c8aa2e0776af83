"""C25: problem suite, recovery performance and recovery trials."""
import contextlib
import io
import os
import re
import tempfile
from functools import partial
from typing import NamedTuple

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import jax
import jax.numpy as jnp
import cr.nimble.dsp.signals as signals
import cr.sparse as crs
import cr.sparse.ef as ef
import cr.sparse.lop as lop
import cr.sparse.problems as problems
import cr.sparse.vision as vision
import cr.sparse.geo as geo
from cr.sparse.pursuit import htp, iht, sp, cosamp, omp, mp, phasetransition
from vh.core import group
from vh.lopcat import rv, ri, key

J = jnp.asarray
nrm = np.linalg.norm

NAMES = ["heavi-sine:fourier:heavi-side", "blocks:haar", "cosine-spikes:dirac-dct", "complex:sinusoid-spikes:dirac-fourier",
         "cosine-spikes:dirac-dct:gaussian", "piecewise-cubic-poly:daubechies:gaussian", "signed-spikes:dirac:gaussian",
         "complex:signed-spikes:dirac:gaussian", "blocks:heavi-side", "blocks:normalized-heavi-side",
         "gaussian-spikes:dirac:gaussian"]
RANDOM = {n for n in NAMES if n.split(":")[0] not in ("heavi-sine", "blocks")}


def make(rng, name, small):
    """Arguments and the documented sizes: (kwargs, m, n of y, length of x)."""
    kw = {}
    if name in ("cosine-spikes:dirac-dct", "complex:sinusoid-spikes:dirac-fourier", "cosine-spikes:dirac-dct:gaussian"):
        d = dict(c=2, k=120 if "gaussian" not in name else 60, n=1024, m=300)
        if small:
            n = ri(rng, 24, 200)
            kw = dict(c=ri(rng, 1, 5), k=ri(rng, 1, n // 3), n=n)
            if "gaussian" in name:
                kw["m"] = ri(rng, n // 4, n)
        d.update(kw)
        return kw, d, (d["m"] if "gaussian" in name else d["n"]), d["n"], 2 * d["n"]
    if name.startswith("piecewise"):
        d = dict(p=5, m=600, n=2048, level=5)
        if small:
            n = int(rng.choice([128, 256, 512]))
            kw = dict(p=ri(rng, 2, 7), m=ri(rng, 20, n), n=n, level=ri(rng, 1, 3))
        d.update(kw)
        return kw, d, d["m"], d["n"], d["n"]
    if "spikes:dirac:gaussian" in name:
        d = dict(k=20, m=600, n=2560, scale=1) if "signed" in name else dict(k=32, m=256, n=1024, scale=1)
        if small == 1:
            n = ri(rng, 20, 300)
            kw = dict(k=ri(rng, 1, n // 3), m=ri(rng, 5, n), n=n)
        elif small == 2:
            kw = dict(scale=float(rng.choice([.02, .1, .25, .5])))
        d.update(kw)
        f = lambda v: max(1, round(d["scale"] * v))
        d = {**d, "k": f(d["k"]), "m": f(d["m"]), "n": f(d["n"])}
        return kw, d, d["m"], d["n"], d["n"]
    base = 128 if name == "blocks:heavi-side" else 1024
    if small:
        kw = dict(n=int(rng.choice([64, 128, 256, 512])) if name == "blocks:haar" else ri(rng, 20, 300))
    n = kw.get("n", base)
    return kw, dict(n=n), n, n, 2 * n if name.startswith("heavi-sine") else n


def suite_case(ctx, i, tol):
    rng = ctx.rng
    name = NAMES[i % len(NAMES)]
    small = (i // len(NAMES)) % 3
    kw, d, m, n, N = make(rng, name, small)
    k = key(rng)
    p = dict(name=name, kw=str(kw))
    ctx.nontrivial(**p)
    args = {} if (small == 0 and i < 2 * len(NAMES) and name not in RANDOM) else dict(key=k)
    pr = problems.generate(name, **args, **kw)
    ctx.ok(pr.name == name, "suite:name", got=pr.name, **p)
    ctx.ok(tuple(pr.A.shape) == (m, N) and tuple(pr.Phi.shape) == (m, n) and tuple(pr.Psi.shape) == (n, N)
           and pr.b.shape == (m,) and pr.x.shape == (N,), "suite:shapes", A=str(pr.A.shape), Phi=str(pr.Phi.shape), Psi=str(pr.Psi.shape), **p)
    x, b = np.asarray(pr.x), np.asarray(pr.b)
    cplx = name.startswith("complex") or name.startswith("heavi-sine")
    ctx.close(pr.A.times(pr.x), b, "suite:b=Ax", tol=tol, **p)
    ctx.finite(b, "suite:finite", **p)
    ctx.ok(nrm(b) > 0 and nrm(x) > 0, "suite:nonzero", **p)
    u = J(rv(rng, N, cplx))
    v = J(rv(rng, m, cplx))
    ctx.close(pr.A.times(u), pr.Phi.times(pr.Psi.times(u)), "suite:A=PhiPsi", tol=tol, scale=nrm(u) * 30, **p)
    ctx.close(pr.A.trans(v), pr.Psi.trans(pr.Phi.trans(v)), "suite:AH=PsiHPhiH", tol=tol, scale=nrm(v) * 30, **p)
    pu = np.asarray(pr.Psi.times(u))
    ctx.close(pr.reconstruct(u), pu.real if name.startswith("heavi-sine") else pu, "suite:reconstruct", tol=tol, scale=nrm(pu), **p)
    if pr.y is not None:
        ctx.close(pr.Phi.times(pr.y), b, "suite:b=Phi-y", tol=tol, **p)
        ctx.close(pr.reconstruct(pr.x), pr.y, "suite:y=reconstruct-x", tol=tol, **p)
    else:
        ctx.close(pr.Phi.times(pr.reconstruct(pr.x)), b, "suite:b=Phi-reconstruct-x", tol=tol, **p)
    if name in ("cosine-spikes:dirac-dct:gaussian", "piecewise-cubic-poly:daubechies:gaussian"):
        ctx.ok(pr.both and pr.y is not None, "suite:both", **p)
    # documented content
    if "dirac-dct" in name or "dirac-fourier" in name:
        s, c = x[:n], x[n:]
        ctx.ok((s != 0).sum() == d["k"] and (c != 0).sum() == d["c"], "suite:sparsity", spikes=int((s != 0).sum()), tones=int((c != 0).sum()), **p)
        ctx.close(pr.Psi.times(J(np.concatenate([s, 0 * c]))), s, "suite:dirac-part", tol=tol, **p)
    if "dirac:gaussian" in name:
        nz = x[x != 0]
        ctx.ok(nz.size == d["k"], "suite:sparsity", got=nz.size, **p)
        if "signed" in name:
            ctx.ok(np.all(np.isin(nz.real, [-1., 1.])) and (np.all(np.isin(nz.imag, [-1., 1.])) if cplx else not np.iscomplexobj(x)), "suite:signed", values=nz[:6], **p)
        if "gaussian-spikes" in name and nz.size > 3:
            ctx.ok(len(set(np.abs(nz).tolist())) > nz.size // 2, "suite:gaussian-spikes", values=nz[:6], **p)
    if "gaussian" in name.split(":")[-1]:
        W = np.stack([np.asarray(pr.Phi.times(J(np.eye(n)[:, j]))) for j in rng.choice(n, 5, replace=False)], 1)
        ctx.close(nrm(W, axis=0), np.ones(5), "suite:unit-atoms", tol=tol, **p)
    if name.startswith("piecewise"):
        y = np.asarray(pr.y, dtype=np.float64)
        d4 = np.abs(np.diff(y, 4)) > (1e-6 if ctx.x64 else 1e-2) * max(1, np.abs(y).max())
        ctx.ok(d4.sum() <= 4 * (d["p"] - 1), "suite:piecewise-cubic", breaks=int(d4.sum()), **p)
    if name.startswith("blocks"):
        ctx.close(b, np.asarray(signals.blocks(n)[1]), "suite:blocks", tol=tol, **p)
        if "heavi" in name:                            # the jumps of the signal, in the (normalised) step basis
            h = np.diff(b, prepend=0.)
            w = 1 / np.sqrt(n - np.arange(n)) if "normalized" in name else np.ones(n)
            ctx.close(x, h / w, "suite:heaviside-coefficients", tol=tol * 10, **p)
    if name.startswith("heavi-sine"):
        t = np.arange(1, n + 1) / n
        jump = np.sign(t - .3) - np.sign(.72 - t)
        if np.min(np.abs(t - .3)) > 1e-5 and np.min(np.abs(t - .72)) > 1e-5:
            ctx.close(b, 4 * np.sin(4 * np.pi * t) + jump, "suite:heavisine", tol=tol * 10, **p)
            ctx.leq((np.abs(x[:n]) > 1e-3 * np.abs(x[:n]).max()).sum(), 2, "suite:two-tones", **p)
            ctx.leq((np.abs(x[n:]) > 1e-5 * np.abs(x[n:]).max()).sum(), 3, "suite:jumps", **p)
    # determinism
    p2 = problems.generate(name, **args, **kw)
    ctx.ok(np.array_equal(np.asarray(p2.b), b) and np.array_equal(np.asarray(p2.x), x), "suite:deterministic", **p)
    if name in RANDOM and N > 60:
        p3 = problems.generate(name, key=jax.random.split(k)[0], **kw)
        ctx.ok(not np.array_equal(np.asarray(p3.b), b), "suite:key-matters", **p)
        q = problems.generate(name, **kw)
        q0 = problems.generate(name, key=jax.random.PRNGKey(0), **kw)
        ctx.ok(np.array_equal(np.asarray(q.b), np.asarray(q0.b)), "suite:default-key", **p)
    return pr, u, p


@group("C25", quick=33, thorough=132)
def suite(ctx, i):
    pr, u, p = suite_case(ctx, i, 1e-8)
    if i < 11 or i % 3 == 0:
        ctx.ok(problems.names() == sorted(problems.names()) and set(NAMES) <= set(problems.names()), "suite:names")
        report(ctx, pr, p)
    if 11 <= i < 22:
        try:
            fig, ax = problems.plot(pr, height=1)
            ctx.ok(len(ax) == len(pr.figures) and len(pr.figures) > 1, "suite:figures", **p)
            for a, ttl in zip(ax, pr.figures):
                got = [np.asarray(l.get_ydata()) for l in a.lines]
                got += [c.markerline.get_ydata() for c in a.containers if hasattr(c, "markerline")]
                ctx.ok(any(g.size for g in got), "suite:figure-has-data", title=ttl, **p)
        finally:
            plt.close("all")


@group("C25", quick=11, thorough=33, mode="f32")
def suite32(ctx, i):
    suite_case(ctx, i + 11, 2e-3)


class Sol(NamedTuple):
    x: jnp.ndarray
    iterations: int = 0


def snr(a, b):
    e = nrm(a - b) ** 2
    eps = np.finfo(float).eps
    return 10 * np.log10((nrm(a) ** 2 or eps) / (e or eps))


def energy_k(a, perc):
    e = np.sort(np.abs(a) ** 2)[::-1]
    c = np.cumsum(e / e.sum())
    q = (perc - 1e-10) / 100
    return int(np.argmax(c >= q)) + 1, np.min(np.abs(c - q))


def report(ctx, pr, p):
    """analyze_solution prints the norms, SNRs and support overlap of the solution it was given."""
    rng = ctx.rng
    x0 = np.asarray(pr.x)
    x = x0 + np.where(rng.random(x0.shape) < .2, 1, 0) * rv(rng, x0.shape, np.iscomplexobj(x0)) * .3 * nrm(x0) / np.sqrt(x0.size)
    perc = float(rng.choice([90., 99., 99.9]))
    it = ri(rng, 1, 500)
    nt, ntr = ri(rng, 1, 900), ri(rng, 1, 900)
    sol = crs.RecoveryFullSolution(x=J(x), r=pr.b - pr.A.times(J(x)), iterations=it, n_times=nt, n_trans=ntr)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        problems.analyze_solution(pr, sol, perc=perc)
    out = buf.getvalue()
    num = r"([-+.\deinf]+)"
    m, n = pr.A.shape
    ctx.ok(f"m: {m}, n: {n}" in out, "report:size", out=out[:80], **p)

    def row(nm, a, b):
        g = re.search(nm + r"_norm: original: " + num + " reconstruction: " + num + " SNR: " + num + " dB", out)
        if not ctx.ok(g is not None, "report:row", row=nm, out=out, **p):
            return
        w = (nrm(a), nrm(b), snr(a, b))
        ctx.ok(abs(float(g[1]) - w[0]) <= 6e-4 + 1e-6 * w[0] and abs(float(g[2]) - w[1]) <= 6e-4 + 1e-6 * w[1] and abs(float(g[3]) - w[2]) <= 6e-3,
               "report:values", row=nm, got=g.groups(), want=str(w), **p)
    row("b", np.asarray(pr.b), np.asarray(pr.A.times(J(x))))
    row("x", x0, x)
    if pr.y is not None and pr.both:
        row("y", np.asarray(pr.y), np.asarray(pr.reconstruct(J(x))))
    (k1, g1), (k2, g2) = energy_k(x0, perc), energy_k(x, perc)
    a0, a1 = np.sort(np.abs(x0))[::-1], np.sort(np.abs(x))[::-1]
    tie = any(k < a.size and a[k - 1] - a[k] < 1e-9 for k, a in ((k1, a0), (k2, a1)))
    g = re.search(r"Sparsity: original: (\d+), reconstructed: (\d+), overlap: (\d+), ratio: " + num, out)
    if ctx.ok(g is not None, "report:sparsity-row", out=out, **p) and min(g1, g2) > 1e-10:
        ctx.ok((int(g[1]), int(g[2])) == (k1, k2), "report:sparsity", got=g.groups(), want=(k1, k2), **p)
        if not tie:
            ov = len(set(np.argsort(-np.abs(x0))[:k1]) & set(np.argsort(-np.abs(x))[:k2]))
            ctx.ok(int(g[3]) == ov and abs(float(g[4]) - ov / max(k1, k2)) < 6e-4, "report:overlap", got=g.groups(), want=ov, **p)
    ctx.ok(re.search(rf"Iterations: {it}\b", out) and f"n_times: {nt}, n_trans: {ntr}" in out, "report:counts", out=out[-80:], **p)


def perf_check(ctx, rp, A, y, x, xh, p):
    M, N = A.shape
    T0 = np.nonzero(x)[0]
    K = T0.size
    h, r = x - xh, y - A @ xh
    S = nrm(x)
    ctx.ok((rp.M, rp.N, rp.K) == (M, N, K), "perf:sizes", got=(rp.M, rp.N, rp.K), **p)
    ctx.ok(np.array_equal(np.asarray(rp.T0), T0), "perf:T0", got=rp.T0, want=T0, **p)
    for nm, g, w in (("x", rp.x_norm, nrm(x)), ("y", rp.y_norm, nrm(y)), ("x_hat", rp.x_hat_norm, nrm(xh)), ("h", rp.h_norm, nrm(h)), ("r", rp.r_norm, nrm(r))):
        ctx.leq(abs(float(g) - w), 1e-9 * (S + nrm(y) + nrm(xh)), "perf:norm", which=nm, got=float(g), want=w, **p)
    ctx.close(rp.h, h, "perf:h", scale=S, **p)
    ctx.close(rp.r, r, "perf:r", scale=nrm(y) + nrm(xh), **p)
    if nrm(h) > 1e-8 * S:
        ctx.leq(abs(float(rp.recovery_snr) - 20 * np.log10(S / nrm(h))), 1e-5, "perf:recovery-snr", **p)
    if nrm(r) > 1e-8 * nrm(y):
        ctx.leq(abs(float(rp.measurement_snr) - 20 * np.log10(nrm(y) / nrm(r))), 1e-5, "perf:measurement-snr", **p)
        ctx.leq(abs(float(rp.h_by_r_norms) - nrm(h) / nrm(r)), 1e-6 * nrm(h) / nrm(r), "perf:h-by-r", **p)
    dr = lambda v: 20 * np.log10(np.abs(v).max() / np.abs(v[v != 0]).min())
    ctx.leq(abs(float(rp.x_dr) - dr(x)), 1e-7, "perf:x-dynamic-range", **p)
    ctx.leq(abs(float(rp.y_dr) - dr(y)), 1e-7, "perf:y-dynamic-range", **p)
    if np.any(xh):
        ctx.leq(abs(float(rp.x_hat_dr) - dr(xh)), 1e-7, "perf:xhat-dynamic-range", **p)
    ctx.close(rp.h_T0, h[T0], "perf:h-T0", scale=S, **p)
    comp = np.setdiff1d(np.arange(N), T0)
    ctx.ok(np.array_equal(np.asarray(rp.T0C), comp), "perf:T0C", **p)
    w = h.copy()
    w[T0] = 0
    ctx.close(rp.h_T0C, w, "perf:h-T0C", scale=S, **p)
    sw = np.sort(np.abs(w))[::-1]
    if 2 * K <= N and sw[K - 1] > 0 and (K == N or sw[K - 1] - sw[K] > 1e-9 * S):
        T1 = np.sort(np.argsort(-np.abs(w))[:K])
        ctx.ok(np.array_equal(np.sort(np.asarray(rp.T1)), T1), "perf:T1", got=rp.T1, want=T1, **p)
        ctx.close(rp.h_T1, h[np.asarray(rp.T1)], "perf:h-T1", scale=S, **p)
        rest = np.setdiff1d(comp, T1)
        ctx.ok(np.array_equal(np.asarray(rp.TRest), rest), "perf:TRest", **p)
        ctx.close(rp.h_TRest, h[rest], "perf:h-TRest", scale=S, **p)
    sx = np.sort(np.abs(xh))[::-1]
    if sx[K - 1] > 0 and (K == N or sx[K - 1] - sx[K] > 1e-9 * S):
        R0 = np.sort(np.argsort(-np.abs(xh))[:K])
        ctx.ok(np.array_equal(np.asarray(rp.R0), R0), "perf:R0", got=rp.R0, want=R0, **p)
        ov = np.intersect1d(T0, R0)
        ctx.ok(np.array_equal(np.asarray(rp.overlap), ov) and rp.num_correct_atoms == ov.size, "perf:overlap", **p)
        ctx.leq(abs(rp.support_recovery_ratio - ov.size / K), 1e-9, "perf:ratio", **p)
        ctx.ok(bool(rp.perfect_support_recovery) == (ov.size == K), "perf:perfect-support", **p)
        s = 20 * np.log10(S / nrm(h)) if nrm(h) else np.inf
        if abs(s - 30) > 1e-6:
            ctx.ok(bool(rp.success) == (ov.size / K > .75 and s > 30), "perf:success", snr=s, ratio=ov.size / K, got=rp.success, **p)


@group("C25", quick=24, thorough=240)
def performance(ctx, i):
    rng = ctx.rng
    for t in range(6):
        cplx = bool((i + t) % 3 == 0)
        N = ri(rng, 6, 40)
        M, K = ri(rng, 4, N), ri(rng, 1, min(10, N // 2))
        kind = ["near30", "wrongsupport", "dense", "exact", "threequarter"][(i + t) % 5]
        if kind == "threequarter" and rng.random() < .7:
            N, K = ri(rng, 20, 40), 4 * ri(rng, 1, 2)
            M = ri(rng, 4, N)
        A = rv(rng, (M, N), cplx) / np.sqrt(M)
        T0 = np.sort(rng.choice(N, K, replace=False))
        x = np.zeros(N, complex if cplx else float)
        x[T0] = rv(rng, K, cplx) + np.sign(rng.normal(size=K))
        if rng.random() < .3:
            x *= 10. ** rng.uniform(-4, 4)
        y = A @ x + (rng.random() < .5) * .01 * nrm(x) * rv(rng, M, cplx)
        # estimates around the success boundary (ratio 0.75, 30 dB), exact, wrong support, or dense
        xh = x.copy()
        if kind == "near30":
            e = rv(rng, N, cplx)
            xh = x + e / nrm(e) * nrm(x) * 10 ** (-rng.uniform(25, 35) / 20)
        elif kind == "wrongsupport":
            xh = np.zeros_like(x)
            I = np.sort(rng.choice(N, K, replace=False))
            xh[I] = rv(rng, K, cplx)
        elif kind == "dense":
            xh = rv(rng, N, cplx) * np.abs(x).max()
        elif kind == "threequarter" and K >= 3 and N > 2 * K:   # tiny atoms missed: high SNR, ratio decides
            miss = T0[:K // 4 if K % 4 == 0 and rng.random() < .6 else ri(rng, 1, 2)]
            x[miss] = 1e-4 * np.abs(x).max() * (1 + rng.random(len(miss)))
            y = A @ x
            xh = x.copy()
            xh[miss] = 0
            other = rng.choice(np.setdiff1d(np.arange(N), T0), len(miss), replace=False)
            xh[other] = 1e-4 * np.abs(x).max() * (1 + rng.random(len(miss)))
        p = dict(M=M, N=N, K=K, cplx=cplx, kind=kind)
        ctx.nontrivial(a=A[0, 0], **p)
        Phi = J(A)
        op = bool(rng.integers(2))
        if op:
            Phi = lop.matrix(Phi) if cplx else lop.real_matrix(Phi)
        form = ["x_hat", "full", "plain-x", "indexed"][ri(rng, 0, 3)]
        if form == "indexed" and kind not in ("wrongsupport", "exact", "threequarter"):
            form = "full"
        kw = {}
        if form == "x_hat":
            kw["x_hat"] = J(xh)
        elif form == "full":
            kw["sol"] = crs.RecoveryFullSolution(x=J(xh), r=J(y - A @ xh), iterations=3)
        elif form == "plain-x":
            kw["sol"] = Sol(x=J(xh))
        else:
            I = np.nonzero(xh)[0]
            rng.shuffle(I)
            from cr.sparse.pursuit import RecoverySolution
            kw["sol"] = RecoverySolution(x_I=J(xh[I]), I=J(I), r=J(y - A @ xh), r_norm_sqr=1., iterations=3, length=N)
        p.update(op=op, form=form)
        rp = ef.RecoveryPerformance(Phi, J(y), J(x), **kw)
        perf_check(ctx, rp, A, y, x, xh, p)
        if t == 0:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                rp.print(details=bool(i % 2))
            out = buf.getvalue()
            ctx.ok(f"M: {M}, N: {N}, K: {K}" in out and f"success: {rp.success}" in out and ("Overlap" in out) == bool(i % 2), "perf:print", out=out, **p)


@group("C25", quick=6, thorough=60)
def performance_of_solvers(ctx, i):
    """Solutions as the library's own solvers return them."""
    rng = ctx.rng
    M, N, K = 30, 50, ri(rng, 2, 5)
    A = rng.normal(size=(M, N))
    A /= nrm(A, axis=0)
    x = np.zeros(N)
    x[rng.choice(N, K, replace=False)] = np.sign(rng.normal(size=K)) * (1 + rng.random(K))
    y = A @ x + 1e-3 * rng.normal(size=M)
    ctx.nontrivial(K=K, a=A[0, 0])
    T = lop.matrix(J(A))
    for nm, f in (("omp", lambda: omp.solve(J(A), J(y), K)), ("htp", lambda: htp.matrix_solve(J(A), J(y), K)), ("sp", lambda: sp.matrix_solve(J(A), J(y), K)),
                  ("cosamp", lambda: cosamp.matrix_solve(J(A), J(y), K)), ("mp", lambda: mp.matrix_solve(J(A), J(y))), ("iht", lambda: iht.matrix_solve(J(A), J(y), K)),
                  ("sp-op", lambda: sp.solve(T, J(y), K)), ("htp-op", lambda: htp.solve(T, J(y), K))):
        s = f()
        if hasattr(s, "I"):
            xh = np.zeros(N)
            xh[np.asarray(s.I)] = np.asarray(s.x_I)
        else:
            xh = np.asarray(s.x)
        rp = ef.RecoveryPerformance(T if nm.endswith("op") else J(A), J(y), J(x), sol=s)
        perf_check(ctx, rp, A, y, x, xh, dict(solver=nm, M=M, N=N, K=K))
        ctx.ok(abs(float(rp.r_norm) - float(nrm(np.asarray(s.r)))) < 1e-8 * (1 + nrm(y)), "perf:residual-of-solver", solver=nm)


@group("C25", quick=14, thorough=84)
def trials(ctx, i):
    """Recovery trials with a recording solver of known success pattern, in a scratch folder."""
    rng = ctx.rng
    nd, ns = [(1, 3), (2, 1), (1, 1), (3, 2), (2, 4), (1, 5), (2, 2)][i % 7]
    M, N = ri(rng, 8, 20), ri(rng, 24, 40)
    Ks = sorted(rng.choice(np.arange(1, 6), ri(rng, 1, 3), replace=False).tolist())
    Ks_arg = jnp.array(Ks) if i % 2 else list(Ks)
    log = {}
    real = i % 3 == 2
    pattern = rng.random(200) < .6
    niter = rng.integers(1, 90, 200)

    def stub(tag, Phi, y, K):
        rec = log.setdefault(tag, [])
        c = len(rec)
        A, v = np.asarray(Phi), np.asarray(y)
        rec.append((A, v, int(K)))
        # the signal is reproducible: try the exact K-sparse answer by enumerating is too slow; a stub may cheat
        from itertools import combinations
        best, xs = None, None
        if int(K) <= 2:
            cand = combinations(range(N), int(K))
        else:
            cand = [tuple(np.sort(np.asarray(omp.solve(J(A), J(v), int(K)).I)))]
        for I in cand:
            B = A[:, I]
            z, res, *_ = np.linalg.lstsq(B, v, rcond=None)
            e = nrm(v - B @ z)
            if best is None or e < best:
                best, xs = e, (I, z)
        x = np.zeros(N)
        x[list(xs[0])] = xs[1]
        solved = best < 1e-8 * nrm(v)
        if not pattern[c % 200]:
            x = np.roll(x, 1)                     # deliberately wrong support
        rec[-1] += (solved and bool(pattern[c % 200]), int(niter[c % 200]), x, solved)
        return crs.RecoveryFullSolution(x=J(x), r=J(v - A @ x), iterations=int(niter[c % 200]))

    def lib(tag, Phi, y, K):
        s = htp.matrix_solve(Phi, y, int(K))
        log.setdefault(tag, []).append((np.asarray(Phi), np.asarray(y), int(K), None, int(s.iterations), np.asarray(s.x), None))
        return s
    ev = ef.RecoveryTrialsAtFixed_M_N(M=M, N=N, Ks=Ks_arg, num_dict_trials=nd, num_signal_trials=ns)
    ev.add_solver("first", partial(lib if real else stub, "first"))
    ev.add_solver("second", partial(stub, "second"))
    p = dict(nd=nd, ns=ns, M=M, N=N, Ks=str(Ks))
    ctx.nontrivial(seed=float(rng.random()), **p)
    with tempfile.TemporaryDirectory() as td:
        f = os.path.join(td, "out.csv")
        with contextlib.redirect_stdout(io.StringIO()):
            ev(f)
        ctx.ok(sorted(os.listdir(td)) == ["out.csv"], "trials:csv-only", **p)
        df = pd.read_csv(f)
    T = nd * ns
    ctx.ok(list(zip(df.method, df.k)) == [(s, k) for s in ("first", "second") for k in Ks], "trials:rows", got=str(list(zip(df.method, df.k))), **p)
    ctx.ok(len(ev.df) == len(df), "trials:frame", **p)
    for s in ("first", "second"):
        rec = log[s]
        ctx.ok(len(rec) == T * len(Ks), "trials:calls", got=len(rec), want=T * len(Ks), **p)
        for j, k in enumerate(Ks):
            part = rec[j * T:(j + 1) * T]
            row = df[(df.method == s) & (df.k == k)].iloc[0]
            ctx.ok(all(r[2] == k for r in part), "trials:K", **p)
            ctx.ok(all(r[0].shape == (M, N) and r[1].shape == (M,) for r in part), "trials:shapes", **p)
            ctx.ok(len({r[1].tobytes() for r in part}) == T, "trials:distinct-signals", got=len({r[1].tobytes() for r in part}), want=T, **p)
            ctx.ok(len({r[0].tobytes() for r in part}) == nd, "trials:distinct-dictionaries", got=len({r[0].tobytes() for r in part}), **p)
            ctx.ok(row.trials == T and row.successes + row.failures == T and row.m == M and row.n == N, "trials:totals", row=str(row.to_dict()), **p)
            ctx.leq(abs(row.success_rate - row.successes / T), 1e-12, "trials:rate", **p)
            if all(r[3] is not None and (r[6] or not r[3]) for r in part) and all(r[6] for r in part):
                ctx.ok(row.successes == sum(r[3] for r in part), "trials:successes", got=int(row.successes), want=sum(r[3] for r in part), **p)
            its = np.array([r[4] for r in part])
            ctx.ok(row.min_iters == its.min() and row.max_iters == its.max() and abs(row.mean_iters - its.mean()) < 1e-9, "trials:iterations", row=str(row.to_dict()), want=its, **p)
            ctx.ok(row.runtime >= 0 and abs(row.mean_runtime - row.runtime * 1000 / max(T - 1, 1)) <= 1e-6 * (1 + row.mean_runtime), "trials:runtime", row=str(row.to_dict()), **p)
    # both solvers face the same problems
    ctx.ok(all(np.array_equal(a[1], b[1]) and np.array_equal(a[0], b[0]) for a, b in zip(log["first"], log["second"])), "trials:same-problems", **p)


@group("C25", quick=8, thorough=48)
def signals_and_kernels(ctx, i):
    rng = ctx.rng
    for t in range(8):
        h, w = ri(rng, 1, 12), ri(rng, 1, 12)
        sx, sy = rng.uniform(.4, 4, 2).tolist()
        form = (i + t) % 3
        if form == 0:
            w, sy = h, sx
            K = np.asarray(vision.kernel_gaussian(h, sx))
        elif form == 1:
            K = np.asarray(vision.kernel_gaussian((h, w), (sx, sy)))
        else:
            sy = sx
            K = np.asarray(vision.kernel_gaussian((h, w), sx))
        p = dict(h=h, w=w, sx=sx, sy=sy, form=form)
        ctx.nontrivial(**p)
        ax = np.arange(w) - (w - 1) / 2
        ay = np.arange(h) - (h - 1) / 2
        G = np.exp(-ax[None, :] ** 2 / (2 * sx ** 2) - ay[:, None] ** 2 / (2 * sy ** 2))
        ctx.close(K, G / G.sum(), "kernel:gaussian", tol=1e-9, **p)
        ts = rng.normal(size=9) * .1
        f0 = rng.uniform(2, 40)
        a = (np.pi * f0 * ts) ** 2
        ctx.close(geo.ricker(J(ts), f0), (1 - 2 * a) * np.exp(-a), "wavelet:ricker", tol=1e-9, **p)
    tt = np.linspace(-3, 3, 60001) / 5
    r = np.asarray(geo.ricker(J(tt), 5.))
    ctx.ok(abs(r[30000] - 1) < 1e-12 and np.argmax(r) == 30000 and abs(np.sum(r) * (tt[1] - tt[0])) < 1e-9, "wavelet:ricker-shape")
    for s in (3, 5, 7, 21):
        ctx.close(getattr(vision, f"KERNEL_BOX_{s}X{s}"), np.full((s, s), 1 / s ** 2), "kernel:box", tol=1e-6)
    ctx.ok(int(np.asarray(vision.KERNEL_SHARPEN_3X3).sum()) == 1 and int(np.asarray(vision.KERNEL_LAPLACIAN_3X3).sum()) == 0, "kernel:sums")
    im = rng.normal(size=(1, 4))
    yy, xx = np.mgrid[-1:2, -1:2]
    sxk, syk = np.asarray(vision.KERNEL_SOBEL_X), np.asarray(vision.KERNEL_SOBEL_Y)
    # response to a linear ramp a x + b y: 8a and 8b
    ctx.ok(abs(np.sum(sxk * (im[0, 0] * xx + im[0, 1] * yy)) - 8 * im[0, 0]) < 1e-9 and abs(np.sum(syk * (im[0, 0] * xx + im[0, 1] * yy)) - 8 * im[0, 1]) < 1e-9, "kernel:sobel-ramp")
    ctx.ok(abs(np.sum(np.asarray(vision.KERNEL_LAPLACIAN_3X3) * (xx ** 2 + yy ** 2)) - 4) < 1e-9, "kernel:laplacian")
    if i < 4:
        N = [32, 64, 256, 512][i]
        with contextlib.redirect_stdout(io.StringIO()):
            c = phasetransition.configuration(N)
        Mmin = 16 if N <= 256 else 32
        Ms = [int(v) for v in c.Ms]
        ctx.ok(c.N == N and Ms == list(range(Mmin, N // 2 + 1, Mmin)), "phase:Ms", got=str(Ms))
        ctx.ok(np.allclose(np.asarray(c.etas), np.array(Ms) / N), "phase:etas")
        nr = min(32, N // 4)
        ctx.ok(np.allclose(np.asarray(c.rhos), .5 * np.arange(1, nr + 1) / nr), "phase:rhos")
        want = {(int(np.ceil(float(r) * m - 1e-12)), m) for m in Ms for r in .5 * np.arange(1, nr + 1) / nr}
        got = [(q.K, q.M) for q in c.configurations]
        ctx.ok(set(got) == want and len(got) == len(set(got)), "phase:configurations", n=len(got), want=len(want))
        ctx.ok(all(q.K == int(np.ceil(q.rho * q.M - 1e-12)) and abs(q.eta * N - q.M) < 1e-9 and 1 <= q.K <= q.M // 2 for q in c.configurations), "phase:consistent")
        ctx.ok(len(c.reverse_map) == nr * len(Ms) and all(v == (int(np.ceil(r * v[1] - 1e-12)), round(e * N)) for (r, e), v in c.reverse_map.items()), "phase:reverse-map")
