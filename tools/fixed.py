"""Rebuild the 'fixed' list of known_findings.json from /repo's fix: commits (run by hand after a fix commit)."""
import json, subprocess, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("proximal operator|l1 proximal|build_from_ind_proj|half thresholding", "C13"), ("Moreau|indicator|quadratic functions|Huber", "C14"),
       ("PCG|LSQR", "C10"), ("adjoint", "C01"), ("norm estimate|truncated SVD", "C05"), ("Gram and frame", "C24"),
       ("compose|powers|scaling by|transpose|matrices of operators|to_complex_matrix", "C03"), ("dwt2D", "C04"),
       ("windowed|flagged as real|FFT", "C02"), ("matching pursuit reported", "C06"),
       ("OMP for complex|normalized IHT", "C07"), ("OMP|CoSaMP|pursuit", "C06")]
MAP2 = json.load(open(os.path.join(V, "tools", "fixmap.json"))) if os.path.exists(os.path.join(V, "tools", "fixmap.json")) else {}
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    pid = next((p for k, p in MAP2.items() if k in s), None) or next((p for r, p in MAP if re.search(r, s)), None)
    assert pid, s
    out.append(f"fixed: property={pid} {h} {s}")
f = os.path.join(V, "known_findings.json")
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
print("\n".join(out))
