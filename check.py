#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> <quick|thorough>

Builds the harnesses of the property from /repo's current working tree with sanitizers, runs
them, collects what the monitors observed, writes evidence/<ID>.json and reports violations.
Exit 0: held on everything explored. 1: VIOLATION printed. 2: the check itself did not work.
"""
import concurrent.futures as cf, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, FLAGS

DEFAULT = {"quick": "asan0", "thorough": "asan"}
CORES = os.cpu_count() or 8
T0 = time.time()

class CheckError(Exception): pass
class ConstEvalError(Exception): pass

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def load_known(pid):
    res = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            res.append((m.group(2), m.group(3).strip()))
    return res

def compile_obj(src, flags, out, timeout=600):
    cmd = ["clang++"] + flags + ["-c", src, "-o", out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        err = p.stdout
        if re.search(r"constant expression|constexpr evaluation|consteval", err) and re.search(r"error:", err):
            raise ConstEvalError("compile-time evaluation of %s failed:\n%s" % (os.path.basename(src), err[-6000:]))
        if re.search(r"error: ", err) and REPO + "/" in err and not re.search(r"fatal error|frontend command failed|No space left|cannot allocate", err):
            raise ConstEvalError("%s uses only the public interface and no longer compiles:\n%s" % (os.path.basename(src), err[:6000]))
        raise CheckError("compiling %s failed:\n%s\n%s" % (src, " ".join(cmd), err[-8000:]))

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_stack_use_after_return=1:strict_string_checks=1:detect_leaks=1:allocator_may_return_null=0:handle_abort=0:max_malloc_fill_size=4096:malloc_fill_byte=170:quarantine_size_mb=64:hard_rss_limit_mb=3400",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=97:report_objects=0",
}

def run_once(binary, args, out, timeout):
    for f in (out, out + ".crash"):
        if os.path.exists(f): os.remove(f)
    env = dict(os.environ); env.update(SAN_ENV)
    errf = out + ".stderr"
    with open(errf, "wb") as ef, open(os.devnull, "rb") as nul:
        p = subprocess.Popen([binary] + args, stdin=nul, stdout=ef, stderr=ef, env=env, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGTERM)
            try: p.wait(10)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait()
            rc = "timeout"
    with open(errf, "rb") as f:
        f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 30000)); err = f.read().decode("utf8", "replace")
    crash = open(out + ".crash", "rb").read().decode("utf8", "replace") if os.path.exists(out + ".crash") else ""
    rep = None
    if os.path.exists(out):
        try: rep = json.load(open(out))
        except Exception: rep = None
    return rc, rep, crash, err

def crash_key(err, crash, rc):
    if rc in ("timeout", 98): return "does-not-terminate"
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    frames = re.findall(r"(/include/lexy(?:_ext)?/[\w/]+\.hpp|/src/[\w/]+\.cpp):(\d+)", err)
    where = os.path.basename(frames[0][0]) if frames else "?"
    if m: return "%s:%s:%s" % (m.group(1), m.group(2), where)
    m = re.search(r"runtime error: (.{0,60})", err)
    if m: return "UBSan:%s:%s" % (re.sub(r"\W+", "_", m.group(1)), where)
    if "assert" in err.lower() or "precondition" in err.lower() or "lexy" in err: return "assertion:%s" % where
    return "abnormal-exit:%s" % rc

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = CHECKS[pid]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    def bye(sig, frm):
        sys.exit(2)
    signal.signal(signal.SIGTERM, bye)
    try:
        return body(pid, tier, seed, conf, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def body(pid, tier, seed, conf, scratch):
    known = load_known(pid)
    units = conf["units"](seed, tier, scratch) if callable(conf["units"]) else conf["units"]
    pool = cf.ThreadPoolExecutor(CORES)
    violations = []   # (key, message, case, unit)
    reports = []
    lock = threading.Lock()
    # shared support objects per flag profile
    profiles = sorted({u.get("profile", DEFAULT[tier]) for u in units})
    incl = ["-I" + REPO + "/include", "-I" + os.path.join(HERE, "harness"), "-I" + scratch]
    objs = {}; pch = {}
    def support(prof):
        o = os.path.join(scratch, "vh-%s.o" % prof)
        compile_obj(os.path.join(HERE, "harness/vh.cpp"), FLAGS[prof] + incl, o)
        return o
    def make_pch(prof, header):
        o = os.path.join(scratch, "%s-%s.pch" % (os.path.basename(header), prof))
        cmd = ["clang++"] + FLAGS[prof] + incl + ["-x", "c++-header", os.path.join(HERE, "harness", header), "-o", o]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise CheckError("precompiling %s failed:\n%s" % (header, p.stdout[-6000:]))
        return o
    futs = {("vh", p): pool.submit(support, p) for p in profiles}
    for p, h in sorted({(u.get("profile", DEFAULT[tier]), u["pch"]) for u in units if u.get("pch")}):
        futs[("pch", p, h)] = pool.submit(make_pch, p, h)
    # compile jobs (unique)
    jobs = {}
    def objname(src, prof, defs):
        return os.path.join(scratch, "%s-%s-%08x.o" % (os.path.basename(src), prof, hash((src, tuple(defs))) & 0xffffffff))
    def submit_compile(src, prof, defs, header):
        o = objname(src, prof, defs)
        if o in jobs: return o
        def go():
            fl = FLAGS[prof] + incl + ["-D" + d for d in defs]
            if header: fl += ["-include-pch", futs[("pch", prof, header)].result()]
            t = time.time(); compile_obj(src, fl, o)
            log("compiled %s %s (%.1fs)" % (os.path.basename(src), " ".join(defs), time.time() - t))
        jobs[o] = pool.submit(go)
        return o
    cpool = cf.ThreadPoolExecutor(64)   # waits only
    runslots = threading.Semaphore(CORES)
    stats = {"compile_units": 0}
    def do_unit(i, u):
        prof = u.get("profile", DEFAULT[tier])
        os_ = []
        for s in u["src"]:
            defs = u.get("defs", [])
            oprof = prof
            if isinstance(s, tuple): s, defs, oprof = s[0], defs + s[1], (s[2] if len(s) > 2 else prof)
            hdr = u.get("pch") if (s.startswith(scratch) or u.get("pch_all")) else None
            src = s if os.path.isabs(s) else os.path.join(HERE, "harness", s)
            if s.startswith("REPO/"): src = os.path.join(REPO, s[5:]); hdr = None
            os_.append(submit_compile(src, oprof, defs, hdr))
        for o in os_: jobs[o].result()
        vho = futs[("vh", prof)].result()
        binary = os.path.join(scratch, "bin%d" % i)
        p = subprocess.run(["clang++"] + FLAGS[prof] + os_ + [vho, "-o", binary] + u.get("libs", []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0: raise CheckError("link failed:\n" + p.stdout[-4000:])
        shards = u.get("shards", 1)
        if tier == "thorough": shards = max(shards, u.get("thorough_shards", min(8, 4 * shards)))
        timeout = u.get("timeout", 240) * (10 if tier == "thorough" else 1)
        def one(k):
            sdir = os.path.join(scratch, "run%d-%d" % (i, k)); os.makedirs(sdir)
            out = os.path.join(sdir, "report.json")
            args = ["--seed", str(seed), "--tier", tier, "--shard", str(k), "--shards", str(shards),
                    "--scale", str(u.get("scale", 100)), "--out", out, "--scratch", sdir] + u.get("args", [])
            for attempt in (1, 2):
                with runslots:
                    t = time.time()
                    rc, rep, crash, err = run_once(binary, args, out, timeout)
                    log("ran %s shard %d/%d: rc=%s cases=%s (%.1fs)" % (u["name"], k, shards, rc, rep and rep["cases"], time.time() - t))
                if rc == "timeout" and attempt == 1: continue
                if rc == "timeout" and not crash: raise CheckError("%s produced no answer" % u["name"])
                break
            with lock:
                if rep is not None: reports.append((u, rep))
                if rep is not None:
                    for v in rep["violations"]:
                        if not u.get("crash_only"):
                            violations.append((v["key"], v["message"], v["case"], u["name"], args))
                if rc not in (0,):
                    if rc == 2 or (rc != "timeout" and not re.search(r"Sanitizer|runtime error|assert|precondition|lexy", err) and not crash):
                        raise CheckError("%s failed to run (rc=%s):\n%s" % (u["name"], rc, err[-4000:]))
                    violations.append((crash_key(err, crash, rc), "abnormal end (rc=%s) of %s\n%s" % (rc, u["name"], err[-12000:]), crash, u["name"], args))
        fs = [cpool2.submit(one, k) for k in range(shards)]
        for f in fs: f.result()
    cpool2 = cf.ThreadPoolExecutor(128)
    # largest first
    ufs = [cpool.submit(do_unit, i, u) for i, u in enumerate(units)]
    errors = []
    for f in ufs:
        try: f.result()
        except ConstEvalError as e: violations.append(("compile-time", str(e), "", "compile", []))
        except CheckError as e: errors.append(str(e))
        except Exception as e: errors.append(repr(e))
    # ---- collect
    evaluations = sum(r["cases"] for _, r in reports)
    distinct = set()
    counts = {}; samples = []
    for u, r in reports:
        for h in r["distinct"]: distinct.add((u["name"], h))
        for k, v in r["counts"].items(): counts[k] = counts.get(k, 0) + v
        for s in r["samples"][:2]:
            if len(samples) < 8: samples.append(s)
    new, seen_known = [], []
    for v in violations:
        for key, text in known:
            if v[0] == key or v[0].startswith(key + "#"):
                if (key, text) not in seen_known: seen_known.append((key, text))
                break
        else: new.append(v)
    for need, n in conf.get("require", {}).items():
        if counts.get(need, 0) < n and not new:
            errors.append("monitor observed too little: %s=%d < %d" % (need, counts.get(need, 0), n))
    if not new and not errors and len(distinct) < 2:
        errors.append("nothing observed")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": conf["rule"],
                       "samples": samples or ["(none)"], "observed": counts, "harnesses": sorted({u["name"] for u in units})},
          "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for key, text in seen_known: print("KNOWN-FINDING: property=%s %s" % (pid, text))
    log("evaluations=%d distinct=%d counts=%s" % (evaluations, len(distinct), json.dumps(counts, sort_keys=True)))
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        done = {}
        for key, msg, case, unit, args in new:
            if key in done: continue
            if len(done) >= 8: break
            path = os.path.join(HERE, "replays", "%s-%d.txt" % (pid, len(done)))
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\nharness: %s\nrerun: cd /verif && VERIF_SEED=%d python3 check.py %s %s\nargs: %s\n\ncase:\n%s\n\nobserved:\n%s\n"
                        % (pid, key, unit, seed, pid, tier, " ".join(args), case, msg))
            done[key] = path
            print("--- %s [%s] %s\n    case: %s\n    %s" % (key, unit, "", case[:600], msg[:1200]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        for e in errors: print("CHECK ERROR:", e)
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
