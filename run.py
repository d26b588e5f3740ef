#!/usr/bin/env python3
"""run.py <property> quick|thorough  - builds /repo's working tree and model-checks one property.
run.py <property> --replay <file>     - re-runs one recorded violation.
See DESIGN.md."""
import array, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD") or os.path.join(V, ".build")
NJ = os.cpu_count() or 8
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
CXX = os.environ.get("VERIF_CXX", "g++")
FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fPIC", "-ffunction-sections", "-fdata-sections"] + SAN
INC = ["-I" + os.path.join(V, "stubs"), f"-I{REPO}/include", f"-I{REPO}/src", "-I/usr/include/gdal", "-I/usr/include/eigen3"]
LIBS = ["-lgdal", "-lgeos_c", "-ltinyxml2", "-ltbb", "-lpthread", "-lm"]
# Need stand-ins for libraries that are not here; everything else is the core.
EXTRA_RE = re.compile(r"(path_planning/|types/Path\.cpp$|route_planner_base\.cpp$|/fields2cover\.cpp$)")
SKIP_RE = re.compile(r"(visualizer\.cpp$)")
ENV = dict(os.environ, ASAN_OPTIONS="exitcode=66:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=67", LC_ALL="C", PROJ_NETWORK="OFF", CPL_DEBUG="OFF", CPL_LOG="/dev/null")


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def tree_key(dirs):
    out = []
    for d in dirs:
        for r, _, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                p = os.path.join(r, f)
                out.append(os.path.relpath(p, d)); out.append(hashlib.sha256(open(p, "rb").read()).hexdigest())
    return sha(*out)


def cc(args):
    r = subprocess.run(args, capture_output=True, text=True)
    return r.returncode, r.stderr


def compile_group(files, outdir, tag, defs):
    """Unity-compiles files into at most 8 objects; falls back to one object per file. Returns objects or None."""
    groups = [files[i::8] for i in range(8)]
    groups = [g for g in groups if g]
    jobs = []
    for i, g in enumerate(groups):
        u = os.path.join(outdir, f"{tag}{i}.cpp")
        open(u, "w").write("".join(f'#include "{f}"\n' for f in g))
        jobs.append((u, u[:-4] + ".o"))

    def one(j):
        return cc([CXX] + FLAGS + defs + INC + ["-c", j[0], "-o", j[1]])
    with ThreadPoolExecutor(NJ) as ex:
        res = list(ex.map(one, jobs))
    if all(r[0] == 0 for r in res):
        return [j[1] for j in jobs]
    jobs = [(f, os.path.join(outdir, tag + "_" + re.sub(r"\W", "_", os.path.relpath(f, REPO)) + ".o")) for f in files]
    with ThreadPoolExecutor(NJ) as ex:
        res = list(ex.map(one, jobs))
    bad = [(j, r) for j, r in zip(jobs, res) if r[0] != 0]
    if bad:
        return None, bad[0][1][1][-3000:]
    return [j[1] for j in jobs]


def build(pid, spec):
    os.makedirs(B, exist_ok=True)
    defs = spec.get("defs", [])
    srckey = sha(tree_key([os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(V, "stubs")]), " ".join(FLAGS + defs), CXX)
    lib = os.path.join(B, "lib-" + srckey)
    hsrc = os.path.join(V, "harness", spec["harness"])
    hkey = sha(srckey, tree_key([os.path.join(V, "harness")]), spec["harness"])
    exe = os.path.join(B, f"{pid}-{hkey}")
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in sorted(glob.glob(os.path.join(B, "lib-*")), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        for old in glob.glob(os.path.join(B, pid + "-*")):
            os.unlink(old)
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
        core = [s for s in srcs if not EXTRA_RE.search(s) and not SKIP_RE.search(s)]
        extra = [s for s in srcs if EXTRA_RE.search(s)]
        hobj = exe + ".o"
        with ThreadPoolExecutor(3) as ex:
            fh = ex.submit(cc, [CXX] + FLAGS + defs + INC + ["-I" + os.path.join(V, "harness"), f'-DREPO_DATA="{REPO}/data/"', "-c", hsrc, "-o", hobj])
            fc = fe = None
            if not os.path.exists(os.path.join(lib, "done")):
                shutil.rmtree(lib, ignore_errors=True); os.makedirs(lib)
                fe = ex.submit(compile_group, extra, lib, "extra", defs)
                fc = ex.submit(compile_group, core, lib, "core", defs)
            if fc is not None:
                c = fc.result()
                if isinstance(c, tuple):
                    log("cannot compile the library:\n" + c[1]); sys.exit(2)
                e = fe.result()
                if isinstance(e, tuple):
                    open(os.path.join(lib, "extra.err"), "w").write(e[1]); e = []
                json.dump(c + e, open(os.path.join(lib, "done"), "w"))
            r = fh.result()
        if r[0] != 0:
            log("cannot compile the harness:\n" + r[1][-3000:]); sys.exit(2)
        if spec.get("needs_extra") and os.path.exists(os.path.join(lib, "extra.err")):
            log("cannot compile the library's optional part:\n" + open(os.path.join(lib, "extra.err")).read()); sys.exit(2)
        objs = json.load(open(os.path.join(lib, "done")))
        link = [CXX] + SAN + defs + [hobj] + objs + LIBS + ["-Wl,--gc-sections", "-o", exe + ".tmp"]
        r = cc(link)
        if r[0] != 0 and not spec.get("needs_extra"):
            r = cc(link[:-2] + ["-Wl,--unresolved-symbols=ignore-all", "-o", exe + ".tmp"])
        if r[0] != 0:
            log("cannot link:\n" + r[1][-3000:]); sys.exit(2)
        os.unlink(hobj); os.rename(exe + ".tmp", exe)
    return exe


def run_shard(exe, shard, n, work, thorough, deadline):
    """Runs one shard to its end, resuming past crashed executions. Returns (stats list, crash list)."""
    stats, crashes, resume, part = [], [], None, 0
    t0 = time.time()
    while True:
        out = os.path.join(work, f"s{shard}.{part}")
        if resume:
            open(out + ".arity", "w").write(resume[1])
        left = max(1.0, deadline - (time.time() - t0))
        cmd = [exe, "--out", out, "--shard", str(shard), "--of", str(n), "--deadline", str(left)]
        if thorough: cmd.append("--thorough")
        if resume: cmd += ["--resume", resume[0]]
        try:
            r = subprocess.run(cmd, capture_output=True, env=ENV, cwd=work, timeout=left + 200)
            rc, err = r.returncode, r.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = 88, "shard timed out"
        if rc == 0:
            stats.append((out, json.load(open(out)))); return stats, crashes
        if rc == 3:
            log("exploration error: " + err[-500:]); crashes.append(("", rc, err)); return stats, crashes
        lines = open(out + ".case", "rb").read().split(b"\0")[0].decode().split("\n")
        crashes.append((lines[0], rc, err))
        if len(crashes) >= 6 or sum(c[1] == 88 for c in crashes) >= 2 or time.time() - t0 > deadline:
            return stats, crashes
        resume = (lines[0], lines[1]); part += 1


def replay(exe, case, thorough, timeout=300):
    cmd = [exe, "--replay", case] + (["--thorough"] if thorough else [])
    try:
        r = subprocess.run(cmd, capture_output=True, env=ENV, cwd="/tmp", timeout=timeout)
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 88, "", "timed out"


def crash_kind(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: return "asan-" + m.group(1)
    m = re.search(r"runtime error: ([^\n]{0,60})", err)
    if m: return "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m.group(1)).lower()).strip("-")
    if rc == 88: return "hang"
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m: return "terminate"
    return f"crash-rc{rc}"


def crash_msg(err):
    keep = [l.strip() for l in err.split("\n") if re.search(r"ERROR: Add|runtime error|terminate called|what\(\)|timed out|^\s+#\d+ .* in (f2c|F2C|std::.*f2c)", l)]
    return "\n  ".join(x[:240] for x in keep[:8]) or err[-1500:]


def hashes(files):
    s = set()
    for f in files:
        if os.path.exists(f):
            a = array.array("Q"); b = open(f, "rb").read(); a.frombytes(b[:len(b) // 8 * 8]); s.update(a)
    return len(s)


def main():
    pid = sys.argv[1]; spec = CHECKS[pid]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rec = json.load(open(sys.argv[3])); exe = build(pid, spec)
        if rec.get("shard"):
            sh = rec["shard"]; print(subprocess.run([exe, "--out", "/tmp/replay.out", "--shard", str(sh[0]), "--of", str(sh[1])] + (["--thorough"] if rec["thorough"] else []), env=ENV).returncode)
            print(open("/tmp/replay.out").read()); return
        rc, o, e = replay(exe, rec["case"], rec["thorough"]); print(o, e[-4000:]); sys.exit(rc)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    t0 = time.time()
    exe = build(pid, spec)
    tb = time.time() - t0
    work = os.path.join(B, f"work-{pid}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    deadline = spec.get("deadline_thorough", 780) if thorough else spec.get("deadline", 300)
    n = NJ
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda i: run_shard(exe, i, n, work, thorough, deadline), range(n)))
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json"))) if k["property"] == pid and k.get("status") != "fixed"]

    def is_known(key, text):
        for k in known:
            if k["key"] == key and re.search(k.get("match", ""), text):
                return k
        return None
    found, known_hit, error = {}, {}, None
    tot = {"executions": 0, "steps": 0, "validated": 0}
    sections, counts, samples, complete = {}, {}, [], True
    replayed = {}   # section/kind -> (case, replay result); the rest of a kind is reported through its first case
    for shard, (stats, crashes) in enumerate(res):
        for out, st in stats:
            for k in tot: tot[k] += st[k]
            complete = complete and st["complete"]
            for s, v in st["sections"].items():
                d = sections.setdefault(s, {"executions": 0, "complete": True})
                d["executions"] += v["executions"]; d["complete"] = d["complete"] and v["complete"]
            for s, v in st["counts"].items(): counts[s] = counts.get(s, 0) + v
            if len(samples) < 12: samples += st["samples"][:6]
            for f in st["fails"]:
                k = is_known(f["key"], f["msg"] + " " + f["trace"])
                if k: known_hit.setdefault(k["what"], 0); known_hit[k["what"]] += 1
                else: found.setdefault(f["key"], []).append((f["case"], f["msg"], f["trace"], shard))
        for case, rc, err in crashes:
            complete = False
            if not case:
                error = err; continue
            kind = crash_kind(rc, err); sec = case.split(":")[0]
            seen = replayed.setdefault(f"{sec}/{kind}", [])
            if kind == "hang" and (len(seen) >= 2 or any(x[0] != 0 for x in seen) or len(replayed) > 3):
                continue   # one confirmed hang, or two that were only slow, settle the section
            r = ("", crash_msg(err), "") if len(seen) >= 3 else replay(exe, case, thorough)
            seen.append(r)
            if kind == "hang" and r[0] == 0:
                continue   # a slow moment of the machine, not a hang
            text = r[1] + err[-3000:]
            k = is_known(f"{sec}/{kind}", text)
            if k: known_hit[k["what"]] = known_hit.get(k["what"], 0) + 1
            else: found.setdefault(f"{sec}/{kind}", []).append((case, crash_msg(err), r[1], shard))
    rdir = os.path.join(V, "replay"); shutil.rmtree(os.path.join(rdir, pid), ignore_errors=True)
    nviol = 0
    for key, lst in sorted(found.items()):
        lst.sort(key=lambda x: (len(x[0]), x[0]))
        case, msg, trace, shard = lst[0]
        rec = {"property": pid, "key": key, "case": case, "message": msg, "trace": trace, "thorough": thorough,
               "how": f"python3 {V}/run.py {pid} --replay <this file>"}
        rc = 88 if key.endswith("/hang") else replay(exe, case, thorough)[0]   # a hang has been replayed above
        if rc == 0:  # depends on earlier executions in the same process: the replay is the whole shard
            again, cr = run_shard(exe, shard, n, work, thorough, deadline)
            if not any(f["key"] == key for _, st in again for f in st["fails"]) and not cr:
                log(f"note: {key} at {case} did not reproduce; not reported ({msg})"); continue
            rec["shard"] = [shard, n]
        os.makedirs(os.path.join(rdir, pid), exist_ok=True)
        path = os.path.join(rdir, pid, re.sub(r"\W+", "_", key)[:80] + ".json")
        json.dump(rec, open(path, "w"), indent=1)
        nviol += 1
        log(f"VIOLATION property={pid} replay={path}")
        log(f"  {key} at {case}: {msg[:600]}\n  trace: {trace[:800]}")
    for w in sorted(known_hit): log(f"KNOWN-FINDING: property={pid} {w}")
    outs = [o for stats, _ in res for o, _ in stats]
    nst, noc, nnt = (hashes([o + x for o in outs]) for x in (".S", ".O", ".N"))
    cov = {"executions": tot["executions"], "exhaustive": bool(complete), "bounds": spec.get("bounds", ""), "sections": sections, "counts": counts,
           "distinct_outcomes": noc, "samples": samples or ["(no sample)"], "build_s": round(tb, 1)}
    if spec["level"] == "model_checking":
        cov.update(states=nst, transitions=tot["steps"], traces_validated_against_impl=tot["validated"] or tot["executions"])
    else:
        cov.update(evaluations=tot["executions"], distinct_nontrivial=nnt or nst, rule=spec.get("rule", ""))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    log(f"{pid} {tier}: executions={tot['executions']} steps={tot['steps']} states={nst} outcomes={noc} nontrivial={nnt} exhaustive={complete} "
        f"violations={nviol} build={tb:.0f}s total={time.time()-t0:.0f}s")
    if error and not nviol:
        sys.exit(2)
    sys.exit(1 if nviol else 0)


if __name__ == "__main__":
    main()
