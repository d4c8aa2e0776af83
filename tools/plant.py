"""Developer tool: build and confirm planted bugs.   plant.py SPECFILE [id ...]

SPECFILE defines bug(id, prop, edits, demo, needs, breaks): edits = [(path, old, new[, count])].
For each: clone /repo to a scratch directory, apply, write seeded/<id>/, confirm stable tests pass, the demo
separates the trees, the touched lines are original, then run the property's quick check on the clone.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BUGS = []
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append((id, prop, edits, demo, needs, breaks))


DEMO = '''#!/bin/bash
# run with cwd = the repository
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(id, prop, edits, demo, needs, breaks, tests=True):
    d = f"/tmp/pl/{id}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    for e in edits:
        f = os.path.join(d, "src/cr/sparse", e[0])
        s = open(f).read()
        n = s.count(e[1])
        want = e[3] if len(e) > 3 else 1
        assert n == want, (id, e[0], "occurrences", n)
        open(f, "w").write(s.replace(e[1], e[2]))
    patch = sh(["git", "-C", d, "diff"]).stdout
    # original lines only
    import re
    for f in sh(["git", "-C", d, "diff", "--name-only"]).stdout.split():
        bl = sh(["git", "-C", d, "blame", "-l", "-s", "HEAD", "--", f]).stdout.splitlines()
        for m in re.finditer(r"^@@ -(\d+)", sh(["git", "-C", d, "diff", "-U0", "--", f]).stdout, re.M):
            l = bl[int(m.group(1)) - 1]
            h = l.split()[0].lstrip("^")
            subj = sh(["git", "-C", d, "log", "-1", "--format=%s", h]).stdout
            if subj.startswith("fix:"):
                print(f"{id}: WARNING touches a line of my fix commit: {l[41:]}")
    out = os.path.join(V, "seeded", id)
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(patch)
    open(f"{out}/demo.sh", "w").write(DEMO)
    open(f"{out}/demo.py", "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{out}/meta.json", "w"), indent=1)
    e = dict(ENV, PYTHONPATH=f"{d}/src")
    a = sh(["bash", f"{out}/demo.sh"], cwd="/repo", env=ENV)
    b = sh(["bash", f"{out}/demo.sh"], cwd=d, env=ENV)
    msg = [f"demo clean={a.returncode} bug={b.returncode}"]
    if a.returncode:
        msg.append(a.stdout[-600:])
    good = a.returncode == 0 and b.returncode != 0
    if good and tests:
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-x", "tests"], cwd=d, env=e)
        last = t.stdout.strip().splitlines()[-1]
        msg.append("tests: " + last)
        if t.returncode:
            good = False
            msg.append("\n".join(l for l in t.stdout.splitlines() if l.startswith("FAILED"))[:500])
    if good:
        c = sh(["bash", f"{V}/run.sh", prop, "--tier", "quick"], cwd=V, env=dict(ENV, VERIF_REPO=d))
        lines = c.stdout.strip().splitlines()
        msg.append(f"CHECK {prop} exit={c.returncode}: " + "; ".join(l[:300] for l in lines if "summary" in l or "cases" in l))
    print(f"== {id}:", "\n   ".join(msg), flush=True)
    shutil.rmtree(d, ignore_errors=True)
    if not good:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    for b in BUGS:
        if len(sys.argv) < 3 or b[0] in sys.argv[2:]:
            one(*b)
