"""Writes and confirms one planted bug under /verif/seeded (used by hand; no check reads seeded/).
plant(id, property, needs, what_it_breaks, [(file, old, new), ...], demo_cpp, srcs=[extra /repo sources])"""
import difflib, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Builds and runs demo.cpp against the library built in /repo; exit 0 when the property holds in it.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -Iinclude -Isrc -I/usr/include/gdal -I/usr/include/eigen3 %s "$d/demo.cpp" %s _build/libFields2Cover.a -lgdal -lgeos_c -ltinyxml2 -ltbb -lpthread -Wl,--unresolved-symbols=ignore-all -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
"""

def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def plant(id, prop, needs, breaks, edits, demo, srcs=(), files=None, inc="", run=True, others=()):
    d = os.path.join(V, "seeded", id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    patch = ""
    byf = {}
    for f, o, n in edits:
        s = byf.get(f) or open("/repo/" + f).read(); assert s.count(o) == 1, (id, f, s.count(o), o); byf[f] = s.replace(o, n)
    for f, n in byf.items():
        patch += "".join(difflib.unified_diff(open("/repo/" + f).read().splitlines(True), n.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.cpp", "w").write(demo)
    if srcs: shutil.copytree(V + "/stubs", d + "/stubs"); inc = '-I"$d/stubs" ' + inc
    for k, v in (files or {}).items():
        os.makedirs(os.path.dirname(d + "/" + k), exist_ok=True); open(d + "/" + k, "w").write(v)
    open(d + "/demo.sh", "w").write(DEMO % (inc, " ".join(srcs))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return verify(id, run, others)

def verify(id, run=True, others=()):
    d = os.path.join(V, "seeded", id); prop = json.load(open(d + "/meta.json"))["property"]; w = f"/tmp/wt-{id}"
    shutil.rmtree(w, ignore_errors=True); sh(f"cp -a /repo {w}")
    inner = f"""mount --bind {w} /repo && cd /repo || exit 9
git apply {d}/patch.diff || {{ echo BAD-APPLY; exit 9; }}
bash /opt/vp/build.sh >/tmp/wt-{id}.b 2>&1 || {{ echo BAD-BUILD; tail -20 /tmp/wt-{id}.b; exit 9; }}
bash /opt/vp/test.sh /tmp/wt-{id}.json >/dev/null 2>&1; python3 -c "
import json;o=json.load(open('/tmp/wt-{id}.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('tests',len(o['passed']),o['failed'][:5])"
bash {d}/demo.sh >/tmp/wt-{id}.d 2>&1; echo demo-with-patch $?; tail -3 /tmp/wt-{id}.d
for p in {" ".join([prop] + list(others)) if run else ""}; do VERIF_BUILD=/tmp/wt-{id}.build python3 /verif/run.py $p quick >/tmp/wt-{id}.c 2>&1; echo check $p rc $?; grep -m3 -E "VIOLATION|cannot" /tmp/wt-{id}.c; tail -1 /tmp/wt-{id}.c; done
"""
    r = sh(f"unshare -Urm bash -s", input=inner); out = r.stdout + r.stderr
    r2 = sh(f"bash {d}/demo.sh", cwd="/repo"); out += f"demo-without-patch {r2.returncode} {(r2.stdout + r2.stderr)[-300:]}\n"
    shutil.rmtree(w, ignore_errors=True); sh(f"rm -f /tmp/wt-{id}.b /tmp/wt-{id}.json /tmp/wt-{id}.d /tmp/wt-{id}.c"); shutil.rmtree(f"/tmp/wt-{id}.build", ignore_errors=True)
    print("==", id, prop, "\n" + out, flush=True); return out
if __name__ == "__main__":
    for i in sys.argv[1:]: verify(i)
