"""Shared harness: case registry, monitors, per-case context.

A *case* is one execution of the real code on one generated workload.  The
case function drives public API of /repo and feeds what it observed to monitors
(``ctx.ok`` / ``ctx.close`` ...).  Every monitor evaluation is counted per
monitor key, so evidence shows what the monitors actually saw.
"""
import json
import os
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")

_GROUPS = {}


class Group:
    def __init__(self, prop, name, fn, quick, thorough, mode):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough, self.mode = quick, thorough, mode


def group(prop, quick, thorough=None, mode="x64", name=None):
    """Register a workload group. ``quick``/``thorough`` = number of cases."""
    def deco(fn):
        g = Group(prop, name or fn.__name__, fn, quick,
                  thorough if thorough is not None else quick * 6, mode)
        _GROUPS.setdefault(prop, {})[g.name] = g
        return fn
    return deco


def groups(prop):
    return _GROUPS.get(prop, {})


def load_known():
    try:
        with open(KNOWN_FILE) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {(e["property"], e["key"]): e for e in data.get("known", [])}


class Skip(Exception):
    """The case turned out to be outside the property's domain (inconclusive)."""


def _short(v):
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    try:
        a = np.asarray(v)
        if a.size <= 64:
            return np.array2string(a, precision=10, threshold=100)
        return "array shape=%s head=%s" % (a.shape, np.array2string(a.ravel()[:8], precision=8))
    except Exception:
        return repr(v)[:300]


class Ctx:
    def __init__(self, prop, gname, idx, seed, tier, mode):
        self.prop, self.group, self.idx = prop, gname, idx
        self.seed, self.tier, self.mode = seed, tier, mode
        self.rng = np.random.default_rng(
            [int(seed) & 0x7FFFFFFF, zlib.crc32(f"{prop}/{gname}".encode()), int(idx)])
        self.events = {}
        self.violations = []
        self.knowns = []
        self.sigs = []
        self.sample = None
        self.x64 = mode == "x64"
        # default tolerances (relative, on well conditioned quantities)
        self.tol = 1e-7 if self.x64 else 2e-3

    # -- bookkeeping -------------------------------------------------
    def nontrivial(self, **params):
        """Record that this case exercised a distinct, non-trivial configuration."""
        s = json.dumps({k: _short(v) for k, v in params.items()}, sort_keys=True, default=str)
        self.sigs.append(f"{self.group}|{s}")
        if self.sample is None:
            self.sample = {"group": self.group, "case": self.idx, **{k: _short(v) for k, v in params.items()}}

    def count(self, key, n=1):
        self.events[key] = self.events.get(key, 0) + n

    def skip(self, why):
        raise Skip(why)

    # -- monitors ----------------------------------------------------
    def ok(self, cond, key, /, **detail):
        self.count(key)
        cond = bool(cond)
        if not cond:
            self.violations.append({"monitor": key, "detail": {k: _short(v) for k, v in detail.items()}})
        return cond

    def close(self, a, b, key, /, tol=None, scale=None, **detail):
        """||a-b|| <= tol * max(scale, ||b||, tiny); NaN/inf or shape mismatch fail."""
        tol = self.tol if tol is None else tol
        self.count(key)
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.violations.append({"monitor": key, "detail": {
                "why": "shape", "got": str(a.shape), "want": str(b.shape),
                **{k: _short(v) for k, v in detail.items()}}})
            return False
        a64 = a.astype(np.complex128)
        b64 = b.astype(np.complex128)
        s = float(np.linalg.norm(b64.ravel())) if scale is None else float(scale)
        d = float(np.linalg.norm((a64 - b64).ravel())) if a.size else 0.0
        if not (d <= tol * max(s, 1e-12)):
            self.violations.append({"monitor": key, "detail": {
                "diff": d, "scale": s, "tol": tol, "got": _short(a), "want": _short(b),
                **{k: _short(v) for k, v in detail.items()}}})
            return False
        return True

    def leq(self, a, b, key, /, slack=0.0, **detail):
        a = float(a)
        b = float(b)
        return self.ok(a <= b + slack, key, lhs=a, rhs=b, slack=slack, **detail)

    def finite(self, a, key, /, **detail):
        return self.ok(np.all(np.isfinite(np.asarray(a))), key, value=a, **detail)

    def known(self, key, cond, what):
        """Probe of a recorded known finding (never part of the general workload)."""
        self.count("known-finding-probe")
        if bool(cond):
            return
        if (self.prop, key) in load_known():
            self.knowns.append({"key": key, "what": what})
        else:
            self.violations.append({"monitor": "probe:" + key, "detail": {"what": what}})


def run_case(prop, gname, idx, seed, tier):
    g = groups(prop)[gname]
    ctx = Ctx(prop, gname, idx, seed, tier, g.mode)
    skipped = None
    try:
        g.fn(ctx, idx)
    except Skip as e:
        skipped = str(e)
    except Exception as e:  # the real code raised on a workload it must accept
        ctx.violations.append({"monitor": "exception", "detail": {
            "type": type(e).__name__, "msg": str(e)[:600],
            "tb": traceback.format_exc()[-1800:]}})
    return {"group": gname, "idx": idx, "events": ctx.events, "violations": ctx.violations[:6],
            "n_violations": len(ctx.violations), "knowns": ctx.knowns, "sigs": ctx.sigs,
            "sample": ctx.sample, "skipped": skipped}
