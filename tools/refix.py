"""For every "fix:" commit: undo it in a scratch copy of /repo and run the check of its property; it must be reported again.
Not a check: a test of the checks. Writes one line per commit to stdout.   refix.py [n parallel] [subject substring ...]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = json.load(open(V + "/tools/fixed.json"))
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
log = [l.split(" ", 1) for l in sh("git -C /repo log --format='%h %s' c8d04f6..HEAD").stdout.splitlines()]
def one(h, subj):
    if subj not in fixed: return print("??", h, subj, "not in fixed.json", flush=True)
    prop = fixed[subj][0]; w = f"/tmp/refix-{h}"; b = w + ".build"
    for d in (w, b): shutil.rmtree(d, ignore_errors=True)
    sh(f"git clone -q /repo {w}"); r = sh(f"git -C {w} revert -n {h}")
    if r.returncode: res = "conflict"
    else:
        r = sh(f"python3 {V}/run.py {prop} quick", env=dict(os.environ, VERIF_REPO=w, VERIF_BUILD=b))
        res = {0: "MISSED", 1: "reported"}.get(r.returncode, f"rc {r.returncode}") + " " + " ".join(os.path.basename(l.split("replay=")[1])[:-5] for l in r.stdout.splitlines() if l.startswith("VIOLATION"))[:160]
        if r.returncode not in (0, 1): res += (r.stdout + r.stderr)[-300:]
    for d in (w, b): shutil.rmtree(d, ignore_errors=True)
    print(prop, h, subj, "->", res, flush=True)
n = int(sys.argv[1]) if len(sys.argv) > 1 else 2; sel = sys.argv[2:]
with ThreadPoolExecutor(n) as ex: list(ex.map(lambda x: one(*x), [x for x in log if not sel or any(s in x[1] for s in sel)]))
