"""C28: what results say about themselves (printed summaries, analyses, derived attributes)."""
import contextlib
import io
import re
import numpy as np
import jax.numpy as jnp
import cr.sparse.lop as lop
import cr.sparse.opt as opt
import cr.sparse.sls as sls
import cr.sparse.fom as fom
import cr.sparse.cvx.spgl1 as spgl1
import cr.sparse.cvx.l1ls as l1ls
import cr.sparse.cvx.focuss as focuss
import cr.sparse.cvx.adm.yall1 as yall1
import cr.sparse.block.bsbl as bsbl
import cr.sparse.cluster as cluster
import cr.sparse.cluster.ssc as ssc
from cr.sparse.opt import spg
from cr.sparse.pursuit import htp, iht, sp, cosamp, omp, mp
from vh.core import group
from vh.lopcat import rv, ri

J = jnp.asarray
nrm = np.linalg.norm
NUM = r"(-?(?:\d+\.?\d*(?:e[+-]?\d+)?|nan|inf)|True|False)"


def stated(text, label):
    """the number following a label in a text, and half a unit in its last printed place"""
    m = re.search(r"(?<![\w/])" + re.escape(label) + r"\s*[:=]?\s*" + NUM, text, re.I)
    if not m:
        return None
    t = m.group(1)
    if t in ("True", "False"):
        return float(t == "True"), 0.
    v = float(t)
    mant, _, ex = t.lower().partition("e")
    dec = len(mant.partition(".")[2])
    return v, .5001 * 10. ** (int(ex or 0) - dec) if "." in mant or ex else .0


def says(ctx, text, what, truth, p):
    """every listed statement appears and is true"""
    for label, want in truth.items():
        got = stated(text, label)
        if not ctx.ok(got is not None, what + ":states", label=label, text=text[:300], **p):
            continue
        v, half = got
        want = float(want)
        ctx.ok(v == want or abs(v - want) <= half + 1e-6 * max(abs(want), 1e-9) + 1e-12 or (np.isnan(v) and np.isnan(want)),
               what + ":true", label=label, stated=v, truth=want, **p)


def printed(f, *a):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f(*a)
    return buf.getvalue()


def problem(rng, cplx=False, tight=False):
    m, n, K = ri(rng, 8, 14), ri(rng, 16, 30), ri(rng, 1, 3)
    A = rv(rng, (m, n), cplx)
    A = np.linalg.qr(A.conj().T)[0].conj().T if tight else A / nrm(A, axis=0)
    x = np.zeros(n, A.dtype)
    x[rng.permutation(n)[:K]] = 10. ** rng.uniform(-2, 2) * (rv(rng, (K,), cplx) + (2 if not cplx else 2j))
    b = A @ x
    if rng.random() < .7:
        b = b + .1 * nrm(b) * rv(rng, (m,), cplx) / np.sqrt(m)
    return A, x, b, K


PUR = {
    "omp": lambda A, T, b, K, q: omp.matrix_solve(J(A), b, K),
    "omp-op": lambda A, T, b, K, q: omp.operator_solve(T, b, K),
    "sp": lambda A, T, b, K, q: sp.matrix_solve(J(A), b, K, max_iters=q),
    "cosamp": lambda A, T, b, K, q: cosamp.matrix_solve(J(A), b, K, max_iters=q),
    "iht": lambda A, T, b, K, q: iht.matrix_solve(J(A), b, K, normalized=True, max_iters=q),
    "htp": lambda A, T, b, K, q: htp.matrix_solve(J(A), b, K, normalized=True, max_iters=q),
    "mp": lambda A, T, b, K, q: mp.solve(T, b, max_iters=q),
    "focuss": lambda A, T, b, K, q: focuss.matrix_solve_noiseless(J(A), b, p=.5, max_iters=q),
}


@group("C28", quick=2 * len(PUR), thorough=24 * len(PUR))
def pursuit_summaries(ctx, i):
    rng = ctx.rng
    nm = list(PUR)[i % len(PUR)]
    A, x, b, K = problem(rng)
    q = ri(rng, 1, 8)
    sol = PUR[nm](A, lop.matrix(J(A)), J(b), K, q)
    p = dict(solver=nm, m=A.shape[0], n=A.shape[1], K=K, q=q)
    xs = np.asarray(sol.x)
    I = np.asarray(sol.I)
    if nm in ("mp", "focuss"):
        ctx.ok(int(sol.length) == A.shape[1], "summary:length", got=int(sol.length), **p)
        ctx.close(sol.x_I, xs[I], "summary:values-at-support", scale=max(nrm(xs), 1e-9), **p)
        if nm == "mp":
            ctx.ok(sorted(I.tolist()) == np.flatnonzero(xs).tolist(), "summary:support", got=str(I), **p)
        else:
            # the support of a dense vector: fewest largest entries that carry 99 % of its energy
            o = np.argsort(-np.abs(xs))
            e = np.cumsum(xs[o] ** 2) / np.sum(xs ** 2)
            if np.min(np.abs(e - .99)) > 1e-9:
                k = int(np.argmax(e >= .99)) + 1
                ctx.ok(sorted(I.tolist()) == sorted(o[:k].tolist()), "summary:energy-support", got=str(I), want=str(o[:k]), **p)
    says(ctx, str(sol), "summary", {"iterations": int(sol.iterations), "m": A.shape[0], "n": A.shape[1], "k": len(I),
                                    "r_norm": nrm(b - A @ xs), "x_norm": nrm(xs)}, p)
    ctx.nontrivial(b0=b[0], **p)


CVX = ["lsqr", "yall1", "l1ls", "spgl1-lasso", "spgl1-bpic", "bsbl", "fom", "spg"]


@group("C28", quick=2 * len(CVX), thorough=24 * len(CVX))
def solver_summaries(ctx, i):
    rng = ctx.rng
    nm = CVX[i % len(CVX)]
    cplx = nm.startswith("spgl1") and (i // len(CVX)) % 2 == 1
    A, x, b, K = problem(rng, cplx, nm == "yall1")
    b = b + .05 * nrm(b) * rv(rng, b.shape, cplx) / np.sqrt(len(b))
    m, n = A.shape
    T = lop.matrix(J(A))
    q = ri(rng, 2, 10)
    p = dict(solver=nm, m=m, n=n, q=q, cplx=cplx)
    ctx.nontrivial(b0=complex(b[0]), **p)
    if nm == "lsqr":
        sol = sls.lsqr(T, J(b), jnp.zeros(n), max_iters=q)
        xs = np.asarray(sol.x)
        says(ctx, str(sol), nm, {"iterations": sol.iterations, "n_times": sol.n_times, "n_trans": sol.n_trans, "A_norm": sol.A_norm,
                                 "A_cond": sol.A_cond, "x_norm": sol.x_norm, "r_norm": sol.r_norm, "atr_norm": sol.atr_norm}, p)
        ctx.ok(str(xs.shape) in str(sol), "lsqr:shape-stated", text=str(sol)[:80], **p)
    elif nm in ("yall1", "l1ls"):
        lam = .1 * np.abs(A.T @ b).max()
        sol = yall1.solve(T, J(b), rho=lam, max_iters=5 * q) if nm == "yall1" else l1ls.solve(T, J(b), lam, max_iters=q)
        says(ctx, str(sol), nm, {"iterations": sol.iterations, "n_times": sol.n_times, "n_trans": sol.n_trans,
                                 "r_norm": nrm(np.asarray(sol.r))}, p)
    elif nm == "spgl1-lasso":
        tau = .8 * np.abs(x).sum()
        o = spgl1.SPGL1Options(max_iters=q)
        sol = spgl1.solve_lasso(T, J(b), tau, options=o)
        xs = np.asarray(sol.x)
        r = b - A @ xs
        g = -A.conj().T @ r
        f = .5 * nrm(r) ** 2
        says(ctx, str(sol), nm, {"f_val": f, "g_norm": nrm(g), "r_norm": nrm(r), "alpha": sol.alpha, "alpha_n": sol.alpha_next,
                                 "lsi": sol.n_ls_iters, "r_gap": sol.r_gap}, p)
        ctx.ok("[%d]" % int(sol.iterations) in str(sol), nm + ":iteration-stated", **p)
        t = printed(spgl1.analyze_lasso_state, T, J(b), tau, o, sol, J(x))
        says(ctx, t, nm + "-analysis", {"m": m, "n": n, "tau": tau, "b_norm": nrm(b), "iterations": sol.iterations, "times": sol.n_times,
                                        "trans": sol.n_trans, "line search": sol.n_ls_iters, "SNR": 20 * np.log10(nrm(x) / nrm(x - xs)),
                                        "PRD": 100 * nrm(x - xs) / nrm(x), "r_norm": nrm(r), "f_val": f, "g_norm": nrm(g),
                                        "g_dnorm": np.abs(g).max(), "f_prev": sol.f_past[1]}, p)
        norms(ctx, t, nm, x, xs, p)
    elif nm == "spgl1-bpic":
        sigma = .15 * nrm(b)
        o = spgl1.SPGL1Options(max_iters=4 * q)
        sol = spgl1.solve_bpic(T, J(b), sigma, options=o)
        xs = np.asarray(sol.x)
        r = b - A @ xs
        g = -A.conj().T @ r
        says(ctx, str(sol), nm, {"f_val": .5 * nrm(r) ** 2, "g_norm": nrm(g), "r_norm": nrm(r), "alpha": sol.alpha, "tau": sol.tau,
                                 "lsi": sol.n_ls_iters, "r_gap": sol.r_gap}, p)
        t = printed(spgl1.analyze_bpic_state, T, J(b), sigma, o, sol, J(x))
        says(ctx, t, nm + "-analysis", {"m": m, "n": n, "sigma": sigma, "b_norm": nrm(b), "iterations": sol.iterations, "times": sol.n_times,
                                        "trans": sol.n_trans, "newton": sol.n_newton, "line search": sol.n_ls_iters,
                                        "SNR": 20 * np.log10(nrm(x) / nrm(x - xs)), "PRD": 100 * nrm(x - xs) / nrm(x),
                                        "r_norm": nrm(r), "r/sigma": nrm(r) / sigma, "tau": sol.tau, "f_val": .5 * nrm(r) ** 2,
                                        "g_norm": nrm(g), "g_dnorm": np.abs(g).max()}, p)
        norms(ctx, t, nm, x, xs, p)
        ctx.ok(("residual error" in t) == bool(abs(nrm(r) - sigma) / max(1., nrm(r)) <= o.opt_tol)
               or abs(abs(nrm(r) - sigma) / max(1., nrm(r)) / o.opt_tol - 1) < 1e-3, nm + ":convergence-claim", text=t[-200:], **p)
    elif nm == "bsbl":
        n2 = 4 * (n // 4)
        A = A[:, :n2]
        f = [bsbl.bsbl_em, bsbl.bsbl_bo][i % 2]
        sol = f(J(A), J(b), 4, options=bsbl.BSBL_Options(max_iters=q, lambda_val=.05, learn_lambda=1, prune_gamma=1e-2))
        xs = np.asarray(sol.x)
        says(ctx, str(sol), nm, {"iterations": sol.iterations, "block size": 4, "blocks": n2 // 4,
                                 "nonzero": int(np.sum(np.asarray(sol.gammas) > 0)), "r_norm": nrm(b - A @ xs), "x_norm": nrm(xs),
                                 "lambda": sol.lambda_val, "dmu": sol.dmu}, p)
    elif nm == "fom":
        o = fom.FomOptions(max_iters=3 * q)
        sol = fom.l1rls(T, J(b), .1, jnp.zeros(n), o)
        for t, ks in ((str(sol), ["L", "theta", "f_x", "f_y", "f_z", "C_x", "C_y", "C_z", "norm_x", "norm_dx", "iterations"]),
                      (sol.at_str, ["iterations", "L", "theta", "f_y", "C_z", "norm_x", "norm_dx"])):
            says(ctx, t, nm, {k: getattr(sol, k) for k in ks}, p)
        says(ctx, str(o), "fom-options", {k: getattr(o, k) for k in ("max_iters", "tol", "L0", "alpha", "beta", "mu")}, p)
    else:
        f = opt.smooth_quad_matrix(J(A.T @ A + np.eye(n)), J(-A.T @ b))
        sol = spg.solve_from(f, opt.proj_l2_ball(.5), jnp.zeros(n), spg.SPGOptions(max_iters=q))
        t = str(sol)
        says(ctx, t, nm, {"iterations": sol.iterations, "f_calls": sol.f_calls, "delta": sol.delta}, p)


def norms(ctx, t, nm, x, xs, p):
    f, fp = stated(t, "f_val"), stated(t, "f_prev")
    ch = stated(t, "change")
    if ctx.ok(f is not None and fp is not None and ch is not None, nm + ":progress-stated", text=t[:300], **p):
        ctx.leq(abs(ch[0] - abs(f[0] - fp[0])), f[1] + fp[1] + ch[1] + 1e-12, nm + ":change-true", f=f[0], prev=fp[0], change=ch[0], **p)
    for tag, v in (("x0", x), ("x", xs)):
        line = [l for l in t.splitlines() if re.match(tag + r"\s*: l1", l)]
        if ctx.ok(len(line) == 1, nm + ":norms-stated", text=t[:300], **p):
            says(ctx, line[0], nm + "-norms", {"l1": np.abs(v).sum(), "l2": nrm(v), "linf": np.abs(v).max()}, p)


@group("C28", quick=8, thorough=80)
def clustering_summaries(ctx, i):
    rng = ctx.rng
    n, k = ri(rng, 10, 40), ri(rng, 2, 4)
    tr = rng.integers(0, k, n)
    tr[:k] = np.arange(k)
    pr = np.where(rng.random(n) < .2, rng.integers(0, k, n), rng.permutation(k)[tr])
    e = cluster.clustering_error_k(J(tr), J(pr), k)
    mp_ = np.asarray(e.mapped_labels)
    miss = int(np.sum(mp_ != tr))
    p = dict(n=n, k=k, miss=miss)
    t = str(e)
    says(ctx, t, "clustering", {"num_missed": miss, "error": miss / n, "error_perc": 100. * miss / n}, p)
    pairs = re.findall(r"(\d+)=>(\d+)", t)
    ctx.ok([int(a) for a, _ in pairs] == list(range(len(np.asarray(e.mapping)))) and
           [int(b) for _, b in pairs] == [int(v) for v in np.asarray(e.mapping)], "clustering:mapping-stated", text=t, **p)
    for a, b in pairs:
        sel = pr == int(b)
        ctx.ok(bool(np.all(mp_[sel] == int(a))), "clustering:mapping-true", pair=a + "=>" + b, **p)
    C = np.abs(rv(rng, (n, n))) * (rng.random((n, n)) < .3)
    np.fill_diagonal(C, 0)
    C[(np.arange(n) + 1) % n, np.arange(n)] += .5
    if i % 2:
        C = C * (tr[:, None] == tr[None]) + 1e-9 * np.eye(n)
    st = ssc.subspace_preservation_stats(J(C), J(tr))
    flags = np.array([np.all(tr[C[:, j] >= 1e-3] == tr[j]) for j in range(n)])
    err = np.array([1 - C[tr == tr[j], j].sum() / C[:, j].sum() for j in range(n)])
    says(ctx, str(st), "preservation", {"spr_error": err.mean(), "spr_flag": float(flags.all()), "spr_perc": 100. * flags.mean()}, p)
    ctx.nontrivial(t=t, **p)
