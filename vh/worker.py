"""Worker process: executes cases sent on stdin (one JSON per line)."""
import sys
import os
import json
import importlib

REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), "w")
    devnull = open(os.devnull, "w")
    os.dup2(devnull.fileno(), 1)     # the library prints; keep the protocol clean
    sys.path.insert(0, os.path.join(REPO, "src"))
    import warnings
    warnings.filterwarnings("ignore")
    import jax
    jax.config.update("jax_platforms", "cpu")
    jax.config.update("jax_enable_x64", mode == "x64")
    import cr.sparse
    got = os.path.realpath(os.path.dirname(cr.sparse.__file__))
    want = os.path.realpath(os.path.join(REPO, "src", "cr", "sparse"))
    if got != want:
        out.write(json.dumps({"fatal": f"cr.sparse imported from {got}, not {want}"}) + "\n")
        out.flush()
        return
    from vh import core
    importlib.import_module("vh.checks." + prop.lower())
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    n = 0
    for line in sys.stdin:
        req = json.loads(line)
        res = core.run_case(prop, req["group"], req["idx"], req["seed"], req["tier"])
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()
        n += 1
        if n % 40 == 0:
            jax.clear_caches()


main()
