"""Check driver:  python -m vh.run C01 [--tier quick|thorough] [--case group:idx]

Schedules the property's cases over worker processes, aggregates monitor
events, writes evidence/<id>.json and exits 0 (held on everything explored) or
1 (VIOLATION line).  Exit 2 = the check itself failed (never a verdict).
"""
import argparse
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

DEADLINE = (540.0, 36000.0)   # wall seconds (quick, thorough) after which no further case is started
CPU_LIMIT = 120.0   # CPU seconds for ONE case before it is called non-terminating (typical: 0.1-5 s)


def plan(prop, tier):
    """The case list comes from a tiny side process: the check modules import jax."""
    code = ("import sys,json;sys.path[:0]=[%r,%r];import importlib;from vh import core;"
            "importlib.import_module('vh.checks.%s');"
            "print('PLAN'+json.dumps([(g.name,g.mode,g.quick,g.thorough) for g in core.groups(%r).values()]))"
            % (VERIF, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"), prop.lower(), prop))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=worker_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    for line in p.stdout.splitlines():
        if line.startswith("PLAN"):
            return json.loads(line[4:])
    sys.stderr.write(p.stderr[-4000:])
    raise SystemExit(2)


def worker_env():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             TF_CPP_MIN_LOG_LEVEL="3",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
                       # this XLA mixes up a matrix constant and its folded transpose in ~1% of compilations
                       # (depends on the per-process hash salt); without folding there is no such pair
                       "--xla_disable_hlo_passes=constant_folding")
    e.pop("JAX_ENABLE_X64", None)
    return e


def cpu_seconds(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


class Worker:
    def __init__(self, prop, mode):
        self.mode = mode
        self.err = open(os.devnull, "w") if not os.environ.get("VH_DEBUG") else None
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vh.worker", prop, mode],
                                  cwd=VERIF, env=worker_env(), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True)
        self.q = queue.Queue()
        threading.Thread(target=self._reader, daemon=True).start()

    def _reader(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def get(self, cpu_limit):
        """Next message; None if the worker died; 'hang' past the CPU budget."""
        base = cpu_seconds(self.p.pid)
        while True:
            try:
                line = self.q.get(timeout=1.0)
                return None if line is None else json.loads(line)
            except queue.Empty:
                if cpu_seconds(self.p.pid) - base > cpu_limit:
                    return "hang"

    def run(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return None
        return self.get(CPU_LIMIT)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def confirm(prop, modes, results, seed, tier, want=6, fresh=2):
    """A case is a function of (property, group, index, seed): a violation counts only when ``fresh`` new
    processes show it again (the compiler underneath is not deterministic across processes).  Once ``want``
    cases are confirmed the others are kept as they are."""
    bad = [r for r in results if r["violations"] and r["violations"][0]["monitor"] not in ("termination", "no-crash")]
    lock = threading.Lock()
    good, dropped = [], []

    def again(r):
        for _ in range(fresh):
            w = Worker(prop, modes[r["group"]])
            try:
                hello = w.get(600)
                if not isinstance(hello, dict) or not hello.get("ready"):
                    return True
                res = w.run({"group": r["group"], "idx": r["idx"], "seed": seed, "tier": tier})
            finally:
                w.kill()
            if isinstance(res, dict) and not res["violations"]:
                return False
        return True

    def serve():
        while True:
            with lock:
                if not bad or len(good) >= want:
                    return
                r = bad.pop(0)
            if again(r):
                with lock:
                    good.append(r)
            else:
                with lock:
                    dropped.append({"case": f"{r['group']}:{r['idx']}", "monitor": r["violations"][0]["monitor"]})
                r["violations"], r["n_violations"] = [], 0
    ts = [threading.Thread(target=serve) for _ in range(6)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return dropped


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", default=None, help="group:idx - run one case only (replay)")
    ap.add_argument("--group", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    groups = plan(prop, tier)
    if not groups:
        print("no groups for", prop)
        return 2
    todo = {"x64": [], "f32": []}
    modes = {}
    for name, mode, q, t in groups:
        modes[name] = mode
        if a.group and name != a.group:
            continue
        n = q if tier == "quick" else t
        for i in range(n):
            todo[mode].append((i / max(n, 1), name, i))
    if a.case:
        g, i = a.case.rsplit(":", 1)
        todo = {"x64": [], "f32": []}
        todo[modes[g]].append((0, g, int(i)))
    for m in todo:
        todo[m].sort()
    total = sum(len(v) for v in todo.values())
    jobs = max(1, min(a.jobs, total))
    # split the workers over the modes, at least one per non-empty mode
    nw = {}
    if todo["x64"] and todo["f32"]:
        if jobs < 2:
            jobs = 2
        nw["f32"] = min(max(1, round(jobs * len(todo["f32"]) / total)), jobs - 1)
        nw["x64"] = jobs - nw["f32"]
    else:
        nw = {m: jobs for m in todo if todo[m]}
    lock = threading.Lock()
    results, fatal, retries, timings, stop = [], [], {}, [], []

    def serve(mode):
        w = None
        while True:
            with lock:
                if not todo[mode] or fatal or stop or time.time() - t0 > DEADLINE[tier != "quick"]:
                    break
                _, g, i = todo[mode].pop(0)
            if w is None:
                w = Worker(prop, mode)
                hello = w.get(600)
                if not isinstance(hello, dict) or not hello.get("ready"):
                    fatal.append(f"worker failed to start: {hello}")
                    break
            req = {"group": g, "idx": i, "seed": a.seed, "tier": tier}
            c0 = time.time()
            res = w.run(req)
            timings.append((time.time() - c0, g, i))
            if res is None or res == "hang":
                w.kill()
                w = None
                with lock:
                    key = (g, i)
                    retries[key] = retries.get(key, 0) + 1
                    if retries[key] < 2:
                        todo[mode].insert(0, (0, g, i))     # confirm in a fresh process
                    elif res == "hang":
                        stop.append(1)      # decided: do not spend the time limit on further hangs
                        results.append({"group": g, "idx": i, "events": {"termination": 1}, "sigs": [], "knowns": [],
                                        "violations": [{"monitor": "termination", "detail": {
                                            "why": f"no answer within {CPU_LIMIT:.0f} CPU s, twice"}}],
                                        "n_violations": 1, "sample": None, "skipped": None})
                    else:
                        results.append({"group": g, "idx": i, "events": {"no-crash": 1}, "sigs": [], "knowns": [],
                                        "violations": [{"monitor": "no-crash", "detail": {"why": "process died, twice"}}],
                                        "n_violations": 1, "sample": None, "skipped": None})
                continue
            with lock:
                results.append(res)
                if res["violations"] and os.environ.get("VH_FIRST"):
                    stop.append(1)          # developer switch: the first violating case is enough
        if w is not None:
            w.kill()

    threads = [threading.Thread(target=serve, args=(m,)) for m, k in nw.items() for _ in range(k)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if fatal:
        for f in fatal:
            print("CHECK-ERROR", f)
        return 2

    results.sort(key=lambda r: (r["group"], r["idx"]))
    dropped = []
    if any(r["violations"] for r in results) and not os.environ.get("VH_FIRST"):
        dropped = confirm(prop, modes, results, a.seed, tier)
    events, sigs, samples, viol, knowns, skipped = {}, set(), {}, [], {}, []
    for r in results:
        for k, n in r["events"].items():
            events[k] = events.get(k, 0) + n
        sigs.update(r["sigs"])
        if r["sample"] and len(samples.get(r["group"], [])) < 1:
            samples.setdefault(r["group"], []).append(r["sample"])
        if r["violations"]:
            viol.append(r)
        for k in r["knowns"]:
            knowns[k["key"]] = k
        if r["skipped"]:
            skipped.append(f'{r["group"]}:{r["idx"]} {r["skipped"]}')
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "planned": total,
            "distinct_nontrivial": len(sigs),
            "rule": "one evaluation = one seeded workload run on the real code from /repo with monitors attached; "
                    "distinct and non-trivial = distinct recorded configuration (operator/solver/variant, sizes, "
                    "data digest) for which the case got past its own non-degeneracy guards",
            "samples": [s for g in sorted(samples) for s in samples[g]][:40],
            "monitor_events": dict(sorted(events.items())),
            "monitor_events_total": sum(events.values()),
            "inconclusive_cases": len(skipped),
            "inconclusive_detail": skipped[:20],
            "not_reproduced": dropped,
            "known_findings_observed": sorted(knowns),
        },
        "assumptions": [
            "CPU execution, jax 0.4.18; groups run in float64 mode or the default float32 mode with matching tolerances",
            "numpy/scipy dense linear algebra used by the oracles is correct",
            "cases are sampled from VERIF_SEED; nothing is claimed outside the sampled workloads",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if not a.case and not a.group:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in sorted(knowns):
        print(f"KNOWN-FINDING: property={prop} {k}: {knowns[k]['what']}")
    if viol:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{prop}-{viol[0]['group']}-{viol[0]['idx']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": a.seed, "tier": tier,
                       "replay_cmd": f"cd /verif && bash run.sh {prop} --seed {a.seed} --tier {tier} "
                                     f"--case {viol[0]['group']}:{viol[0]['idx']} -v",
                       "violating_cases": viol[:50]}, f, indent=1, default=str)
        show = viol[:6] if a.v else viol[:4]
        for r in show:
            for v in r["violations"][:3 if a.v else 1]:
                d = json.dumps(v["detail"], default=str)
                if v["monitor"] == "exception" and a.v:
                    print(v["detail"]["tb"])
                print(f"  {r['group']}:{r['idx']} monitor={v['monitor']} {d[:1500 if a.v else 500]}")
        bym = {}
        for r in viol:
            k = (r["group"], r["violations"][0]["monitor"])
            bym[k] = bym.get(k, 0) + 1
        print("  summary:", {f"{g}/{m}": n for (g, m), n in bym.items()})
        print(f"VIOLATION property={prop} replay={path}")
    if a.v:
        timings.sort(reverse=True)
        print("slowest:", [(round(t, 1), g, i) for t, g, i in timings[:8]])
        tg = {}
        for t, g, i in timings:
            tg.setdefault(g, []).append(t)
        print("group time:", {g: (len(v), round(sum(v), 1)) for g, v in tg.items()})
        print("events:", events)
        if skipped:
            print("skipped:", skipped[:10])
    print(f"{prop} {tier} seed={a.seed}: {len(results)} cases, {len(sigs)} distinct non-trivial, "
          f"{sum(events.values())} monitor events, {len(skipped)} inconclusive, {len(viol)} violating, {wall:.1f}s"
          + (f", {len(dropped)} not reproduced: {dropped[:3]}" if dropped else ""))
    if not viol and (len(results) == 0 or sum(events.values()) == 0 or len(skipped) * 2 > len(results)):
        print("CHECK-ERROR: too little was observed to give a verdict")
        return 2
    return 1 if viol else 0


sys.exit(main())
