"""Line coverage of /repo by the quick checks together (not a check): cov.py <out dir> [ids...] builds without sanitizers and with gcov
counters, runs every quick check and lists the lines no check executes."""
import collections, glob, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
out = sys.argv[1]; os.makedirs(out, exist_ok=True); os.environ["VERIF_BUILD"] = out
import run
run.SAN[:] = ["--coverage", "-fprofile-update=atomic"]; run.FLAGS[:] = ["-std=c++17", "-O0", "-g1", "-w", "-fPIC"] + run.SAN
ids = sys.argv[2:] or sorted(run.CHECKS)
for i in ids:
    run.CHECKS[i]["defs"] = []
    sys.argv = ["run.py", i, "quick"]
    try: run.main()
    except SystemExit: pass
lines = collections.defaultdict(dict)
for lib in glob.glob(out + "/lib-*"):
    for g in glob.glob(lib + "/*.gcda"):
        r = subprocess.run(["gcov", "--json-format", "--stdout", g], capture_output=True, text=True, cwd=lib).stdout
        for doc in r.splitlines():
            if not doc.startswith("{"): continue
            for f in json.loads(doc)["files"]:
                if not os.path.abspath(os.path.join(lib, f["file"])).startswith(run.REPO + "/"): continue
                for l in f["lines"]: lines[f["file"]][l["line_number"]] = lines[f["file"]].get(l["line_number"], 0) + l["count"]
hit = tot = 0
with open(out + "/uncovered.txt", "w") as o:
    for f in sorted(lines):
        src = open(f).read().split("\n"); miss = [n for n, c in sorted(lines[f].items()) if not c]; hit += len(lines[f]) - len(miss); tot += len(lines[f])
        if miss: o.write(f"{f}: {len(miss)} of {len(lines[f])} lines\n" + "".join(f"   {n}: {src[n - 1].strip()}\n" for n in miss))
print(f"{hit} of {tot} lines executed; see {out}/uncovered.txt")
