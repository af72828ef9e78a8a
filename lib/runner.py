"""Runs the symbolic executor on a property's harness configurations, confirms counterexamples on the native build,
writes evidence. Used by /verif/check.py."""
import os, re, sys, json, time, glob, hashlib, subprocess, tempfile, shutil, threading, queue
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STENOS_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")
CLANG = "clang++-18"
IRFLAGS = ["-std=c++14", "-O1", "-march=haswell", "-DNDEBUG", "-DSTENOS_STATIC", "-DSYMX", "-fno-vectorize", "-fno-slp-vectorize",
           "-gline-tables-only", "-Wno-everything", "-emit-llvm", "-c"]
NATIVE = {
    "plain": ["g++", "-std=c++14", "-O2", "-march=native", "-DNDEBUG", "-DSTENOS_STATIC", "-w"],
    "asan": ["g++", "-std=c++14", "-O1", "-g", "-march=native", "-DNDEBUG", "-DSTENOS_STATIC", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "patA": ["g++", "-std=c++14", "-O1", "-march=native", "-DNDEBUG", "-DSTENOS_STATIC", "-w", "-ftrivial-auto-var-init=pattern"],
    "patB": ["g++", "-std=c++14", "-O1", "-march=native", "-DNDEBUG", "-DSTENOS_STATIC", "-w", "-ftrivial-auto-var-init=zero"],
    # threads run one at a time in the recorded order (harness/native_sched.cpp); "tsan": the threads really run
    "sched": ["clang++-18", "-std=c++14", "-O1", "-g", "-march=haswell", "-DNDEBUG", "-DSTENOS_STATIC", "-w", "-fno-vectorize", "-fno-slp-vectorize"],
    "tsan": ["clang++-18", "-std=c++14", "-O1", "-g", "-march=haswell", "-DNDEBUG", "-DSTENOS_STATIC", "-w", "-fno-vectorize", "-fno-slp-vectorize"],
}
WRAPS = ["malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "free", "_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm",
         "clock_gettime", "_ZN6stenos6detail19compute_cpu_featureEv", "_ZNSt6thread20hardware_concurrencyEv"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def tree_hash():
    h = hashlib.sha256()
    for root, d, fs in os.walk(os.path.join(REPO, "stenos")):
        d.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    for f in sorted(glob.glob(HARN + "/*")):
        h.update(open(f, "rb").read())
    h.update(open(os.path.join(VERIF, "lib/runner.py"), "rb").read())
    return h.hexdigest()[:16]

_locks = {}
_llock = threading.Lock()
def once(key):
    with _llock:
        return _locks.setdefault(key, threading.Lock())

class Builder:
    def __init__(self):
        self.dir = os.path.join(BUILD, "t-" + tree_hash())
        os.makedirs(self.dir, exist_ok=True)
        # older trees are of no use
        for d in glob.glob(os.path.join(BUILD, "t-*")):
            if d != self.dir and time.time() - os.path.getmtime(d) > 3600 * 3:
                shutil.rmtree(d, ignore_errors=True)
        self.engine_ready = False
        self.fail = {}

    def engine(self):
        with once("engine"):
            if not self.engine_ready:
                r = sh(["bash", os.path.join(VERIF, "engine", "build.sh"), BUILD])
                if r.returncode or not os.path.exists(os.path.join(BUILD, "symx")):
                    raise BuildError("engine: " + r.stdout[-2000:])
                self.engine_ready = True
        return os.path.join(BUILD, "symx")

    def sources(self, group):
        """group: which translation units of the code under test, and which environment stubs, are linked with a harness"""
        if group == "none":
            return []
        cpp = sorted(glob.glob(os.path.join(REPO, "stenos/internal/*.cpp")))
        if group == "core":      # the LZ4 dry run is replaced by a model with arbitrary answers
            cpp = [c for c in cpp if not c.endswith("lz4dry.cpp")]
            return cpp + [HARN + "/stub_env.cpp", HARN + "/stub_lz4.cpp"]
        if group == "full":
            return cpp + [HARN + "/stub_env.cpp"]
        raise BuildError("unknown group " + group)

    def obj(self, src, kind, defs):
        key = hashlib.sha256((src + kind + repr(defs)).encode()).hexdigest()[:12]
        out = os.path.join(self.dir, os.path.basename(src).rsplit(".", 1)[0] + "-" + key + (".bc" if kind == "ir" else ".o"))
        with once(out):
            if out in self.fail:
                raise BuildError(self.fail[out])
            if not os.path.exists(out):
                cmd = ([CLANG] + IRFLAGS) if kind == "ir" else (NATIVE[kind] + ["-c"])
                if kind == "sched" and ("/harness/" not in src or "/h_" in src):
                    cmd = cmd + ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-memintrinsics=0"]
                if kind == "tsan":  # the run time library of the race detector must not be wrapped
                    cmd = cmd + (["-fsanitize=thread"] if "/harness/" not in src or "/h_" in src else ["-DSYM_NOWRAP"])
                cmd = cmd + ["-I" + REPO, "-I" + HARN] + ["-D" + d for d in defs] + [src, "-o", out + ".tmp"]
                r = sh(cmd)
                if r.returncode:
                    self.fail[out] = "compiling %s (%s): %s" % (src, kind, r.stdout[:3000])
                    raise BuildError(self.fail[out])
                os.rename(out + ".tmp", out)
        return out

    def ir(self, cfg):
        srcs = [os.path.join(HARN, cfg["h"] + ".cpp")] + self.sources(cfg["src"])
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda s: self.obj(s, "ir", cfg["defs"] if "/h_" in s else []), srcs))

    def native(self, cfg, kind):
        srcs = [os.path.join(HARN, cfg["h"] + ".cpp")] + self.sources(cfg["src"]) + [HARN + "/native_rt.cpp"]
        if kind == "sched":
            srcs.append(HARN + "/native_sched.cpp")
        key = hashlib.sha256((cfg["h"] + cfg["src"] + kind + repr(cfg["defs"])).encode()).hexdigest()[:12]
        out = os.path.join(self.dir, cfg["h"] + "-" + kind + "-" + key)
        with once(out):
            if not os.path.exists(out):
                with ThreadPoolExecutor(8) as ex:
                    objs = list(ex.map(lambda s: self.obj(s, kind, cfg["defs"] if "/h_" in s else []), srcs))
                wraps = list(WRAPS)
                if kind == "sched":
                    wraps += ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "sched_yield",
                              "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
                              "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE",
                              "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "_ZNSt6thread4joinEv"]
                cc = NATIVE[kind][0]
                san = [f for f in NATIVE[kind] if f.startswith("-fsanitize")] + (["-fsanitize=thread"] if kind == "tsan" else [])
                r = sh([cc] + san + objs + (["-Wl," + ",".join("--wrap=" + w for w in wraps)] if kind != "tsan" else []) + ["-lpthread", "-o", out + ".tmp"])
                if r.returncode:
                    raise BuildError("linking %s: %s" % (out, r.stdout[:3000]))
                os.rename(out + ".tmp", out)
        return out

def cfg_norm(c):
    c = dict(c)
    c.setdefault("src", "core"); c.setdefault("p", {}); c.setdefault("defs", []); c.setdefault("t", 60)
    c.setdefault("m", 3000); c.setdefault("q", 5000); c.setdefault("args", [])
    return c

def cfg_name(c):
    return c["h"] + "".join(" -D" + d for d in c["defs"]) + "".join(" %s=%s" % kv for kv in sorted(c["p"].items()))

def write_model(path, model):
    with open(path, "w") as f:
        for n, h in model:
            f.write(n + "\t" + h + "\n")

def native_env(c, model_path, out_path, garbage="0xAA"):
    env = {k: v for k, v in os.environ.items() if not k.startswith("SYM_")}
    for k, v in c["p"].items():
        env["SYM_P_" + k] = str(v)
    env.update(SYM_MODEL=model_path, SYM_OUT=out_path, SYM_GARBAGE=garbage)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=86:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1:max_malloc_fill_size=1000000000:malloc_fill_byte=%d" % int(garbage, 16)
    env["MALLOC_PERTURB_"] = str(255 - int(garbage, 16))
    return env

def run_native(exe, env, timeout=30):
    try:
        r = subprocess.run(exe if isinstance(exe, list) else [exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stderr.decode(errors="replace")[-3000:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def read_out(path):
    try:
        return [l.rstrip("\n").split("\t") for l in open(path)]
    except OSError:
        return []

def confirm_race(b, c, v, d, mp):
    """The two accesses are not ordered in any execution with these synchronisations: the race detector of the native
    build, where the threads really run, must report one of the two places too."""
    exe = b.native(c, "tsan")
    env = native_env(c, mp, os.path.join(d, "out-tsan.txt"))
    env["TSAN_OPTIONS"] = "exitcode=86:halt_on_error=0:report_bugs=1:history_size=7"
    places = set(re.findall(r"([A-Za-z0-9_]+\.(?:hpp|h|cpp|cc)):\d+", v["where"] + " " + v["msg"] + " " + v["stack"]))
    last = ""
    for n in range(40):
        rc, err = run_native(exe, env, timeout=30)
        if rc == 86 and any(p in err for p in places):
            with open(os.path.join(d, "native.txt"), "w") as f:
                f.write("tsan build, run %d: exit %d\n%s\n" % (n, rc, err))
            return True, "tsan build: " + next((l.strip() for l in err.splitlines() if "SUMMARY" in l), "data race")[:200]
        if rc in (77, 134, 139) or rc < 0:
            return True, "tsan build: exit %d" % rc
        last = "rc %d" % rc
    return False, "tsan: no report in 40 runs, last " + last

def confirm(b, c, v, d):
    """Replay a counterexample against the native build of the current tree. Returns (confirmed, how)."""
    os.makedirs(d, exist_ok=True)
    mp = os.path.join(d, "model.txt")
    write_model(mp, v["model"])
    tries = []
    if v["kind"] == "race":
        return confirm_race(b, c, v, d, mp)
    kinds = ["sched", "schedv"] if v.get("sched") else []
    if v["kind"] == "undetermined":
        outs = []
        for kind, g in (("patA", "0xAA"), ("patB", "0x00"), ("patA", "0x3c")):
            op = os.path.join(d, "out-%s-%s.txt" % (kind, g))
            exe = b.native(c, kind)
            rc, err = run_native(exe, native_env(c, mp, op, g))
            outs.append((rc, [l for l in read_out(op) if l and l[0] == "DET"]))
            tries.append("%s(garbage %s): rc %d" % (kind, g, rc))
            if rc not in (0, 78, 79):
                return True, "; ".join(tries)
        base = outs[0]
        for o in outs[1:]:
            if o != base:
                return True, "; ".join(tries) + "; results differ between memory fill patterns"
        return False, "; ".join(tries)
    for kind in kinds + ["asan", "plain"]:
        op = os.path.join(d, "out-%s.txt" % kind)
        exe = b.native(c, kind[:5])
        env = native_env(c, mp, op)
        if kind[:5] == "sched":
            with open(os.path.join(d, "sched.txt"), "w") as f:
                f.write(" ".join(map(str, v["sched"])) + "\n")
            env["SYM_SCHEDULE"] = os.path.join(d, "sched.txt")
        rc, err = run_native(exe if kind != "schedv" else ["valgrind", "-q", "--error-exitcode=86", exe], env, timeout=40)
        if rc in (77, 86, 85) or rc < 0 or rc == 134 or rc == 139 or (rc == 124 and v["kind"] in ("hang", "deadlock")):
            with open(os.path.join(d, "native.txt"), "w") as f:
                f.write("%s build: exit %d\n%s\n" % (kind, rc, err))
            return True, "%s build: exit %d %s" % (kind, rc, (err.strip().splitlines() or [""])[0][:200] if kind != "asan" else next((l for l in err.splitlines() if "ERROR" in l or "violated" in l), "")[:200])
        tries.append("%s: rc %d" % (kind, rc))
        if kind == "schedv":
            return False, "; ".join(tries)  # other builds do not follow the schedule
    return False, "; ".join(tries)

def validate_sample(b, c, s, d):
    """Run the native build on the inputs of an explored path and compare the observations."""
    os.makedirs(d, exist_ok=True)
    mp, op = os.path.join(d, "model.txt"), os.path.join(d, "out.txt")
    write_model(mp, s["model"])
    exe = b.native(c, "sched" if s.get("sched") else "plain")
    env = native_env(c, mp, op)
    if s.get("sched"):
        with open(os.path.join(d, "sched.txt"), "w") as f:
            f.write(" ".join(map(str, s["sched"])) + "\n")
        env["SYM_SCHEDULE"] = os.path.join(d, "sched.txt")
    rc, err = run_native(exe, env)
    got = [(l[1], l[2] if len(l) > 2 else "") for l in read_out(op) if l and l[0] == "OBS"]
    want = [(n, h) for n, h in s["obs"]]
    if rc == 79 or rc == 78:
        return None, "input records not consumed in the same order (rc %d)" % rc
    # a floating point result or a scheduling decision was left open: the native run may take another path
    no = None if s.get("approx") else False
    if rc != 0:
        return no, "rc %d: %s" % (rc, err[-300:])
    if len(got) != len(want):
        return no, "number of observations %d vs %d" % (len(got), len(want))
    for (gn, gh), (wn, wh) in zip(got, want):
        if gn != wn or len(gh) != len(wh) or any(wh[i:i + 2] != "??" and wh[i:i + 2] != gh[i:i + 2] for i in range(0, len(wh), 2)):
            return no, "observation %s differs" % wn
    return True, ""

def load_findings():
    fs = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.jsonl")):
            l = l.strip()
            if l:
                fs.append(json.loads(l))
    except OSError:
        pass
    return fs

def run_property(pid, spec, tier, seed):
    t0 = time.time()
    b = Builder()
    cfgs = [cfg_norm(c) for c in spec[tier]]
    scale = float(os.environ.get("VERIF_TSCALE", "1"))
    sym = b.engine()
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    results = [None] * len(cfgs)
    errors = []
    # longest first
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get("w", cfgs[i]["t"]))
    def one(i):
        c = cfgs[i]
        try:
            bcs = b.ir(c)
        except BuildError as e:
            errors.append(str(e))
            return
        out = os.path.join(scratch, "r%d.json" % i)
        cmd = [sym, "-o", out, "-t", str(c["t"] * scale), "-m", str(c["m"]), "-q", str(c["q"]), "-seed", str(seed), "-repo", REPO, "-samples", str(c.get("samples", 2)), "-maxviol", "4"]
        for k, v in c["p"].items():
            cmd += ["-p", "%s=%s" % (k, v)]
        try:
            r = subprocess.run(cmd + c["args"] + bcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=c["t"] * scale + 60)
            if r.returncode == 3 or not os.path.exists(out):
                errors.append("%s: engine exit %d %s" % (cfg_name(c), r.returncode, r.stdout[-800:]))
                return
            results[i] = json.load(open(out))
        except subprocess.TimeoutExpired:
            results[i] = {"timeout": True}
        except ValueError as e:
            errors.append("%s: bad engine output %s" % (cfg_name(c), e))
    try:
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, order))
        if errors:
            for e in errors[:5]:
                print("ERROR: " + e, file=sys.stderr)
            return 2
        return finish(pid, spec, tier, seed, b, cfgs, results, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def finish(pid, spec, tier, seed, b, cfgs, results, scratch, t0):
    tot = {}
    keys = ["paths", "completed", "states", "forks", "instructions", "asserts", "assert_queries", "mem_checks", "symbolic_accesses", "queries", "sat_calls", "sat_time", "crosschecks", "z3_calls", "z3_time", "unsupported", "incomplete", "unknown_asserts", "fp_approx"]
    fns, runs, samples, unconf, viol = {}, [], [], [], []
    exhaustive = True
    jobs = []
    for i, (c, r) in enumerate(zip(cfgs, results)):
        if not r or r.get("timeout"):
            runs.append({"config": cfg_name(c), "result": "no answer within the time limit"})
            exhaustive = False
            continue
        for k in keys:
            tot[k] = tot.get(k, 0) + r.get(k, 0)
        for f, n in r["functions"].items():
            fns[f] = fns.get(f, 0) + n
        run = {"config": cfg_name(c), "exhausted": r["exhausted"], "paths": r["paths"], "completed": r["completed"], "pending": r["pending_states"], "queries": r["queries"], "sat_calls": r["sat_calls"], "solver_s": round(r["sat_time"] + r["z3_time"], 2), "time_s": round(r["time"], 2)}
        if r["covers"]: run["covers"] = r["covers"]
        if r["unsupported_msgs"]: run["unsupported"] = r["unsupported_msgs"]
        if r["incomplete_msgs"]: run["incomplete"] = r["incomplete_msgs"]
        if not r["exhausted"]:
            exhaustive = False
        runs.append(run)
        for v in r["violations"]:
            viol.append((i, c, v))
        for k, s in enumerate(r["samples"][:c.get("samples", 2)]):
            jobs.append((i, k, c, s))
    # violations, confirmed natively
    findings = [f for f in load_findings() if f.get("property") == pid and f.get("status") == "known"]
    rep_root = os.path.join(BUILD, "replay", pid)
    shutil.rmtree(rep_root, ignore_errors=True)
    seen, confirmed, known = set(), [], {}
    nconf = 0
    for i, c, v in viol:
        sig = (v["kind"], v["msg"], v["func"])
        if sig in seen and len(confirmed) >= 1:
            continue
        if nconf >= 24 or len(confirmed) >= 6:
            break
        nconf += 1
        d = os.path.join(rep_root, "v%d" % nconf)
        ok, how = False, ""
        for alt in [None] + v.get("alts", []):
            w = dict(v, **alt) if alt else v
            try:
                ok, how = confirm(b, c, w, d)
            except BuildError as e:
                how = "native build failed: " + str(e)[:300]
                break
            if ok:
                v = w
                break
        desc = "%s: %s in %s (%s) [%s]" % (v["kind"], v["msg"], v["func"], v["where"], cfg_name(c))
        with open(os.path.join(d, "violation.json"), "w") as f:
            json.dump({"property": pid, "config": {k: c[k] for k in ("h", "src", "defs", "p")}, "violation": v, "native": how, "confirmed": ok}, f, indent=1)
        with open(os.path.join(d, "replay.sh"), "w") as f:
            f.write("#!/bin/bash\n# rebuilds the harness natively from the current tree and replays the counterexample\nexec python3 %s/check.py --replay %s\n" % (VERIF, d))
        if not ok:
            unconf.append({"violation": desc, "native": how})
            continue
        seen.add(sig)
        kf = next((f for f in findings if all(f["match"].get(k, v.get(k)) == v.get(k) for k in f["match"] if k in ("kind", "msg", "func")) and f["match"].get("h", c["h"]) == c["h"] and all(str(c["p"].get(k)) == str(x) for k, x in f["match"].get("p", {}).items())), None)
        if kf:
            known[kf["what"]] = known.get(kf["what"], 0) + 1
        else:
            confirmed.append((desc, d, how))
    # sampled paths against the native build
    okc, bad, skipped = 0, [], 0
    def val(j):
        i, k, c, s = j
        if c.get("novalidate"):
            return None, "skipped", j
        try:
            r, why = validate_sample(b, c, s, os.path.join(scratch, "s%d_%d" % (i, k)))
        except BuildError as e:
            r, why = None, str(e)[:200]
        return r, why, j
    import random
    rnd = random.Random(seed)
    rnd.shuffle(jobs)
    with ThreadPoolExecutor(8) as ex:
        for r, why, j in ex.map(val, jobs[:spec.get("max_samples", 60)]):
            if r is True:
                okc += 1
                if len(samples) < 5:
                    samples.append({"config": cfg_name(j[2]), "inputs": [[n, h[:64]] for n, h in j[3]["model"][:6]], "observed": [[n, h[:64]] for n, h in j[3]["obs"][:4]], "native_agrees": True})
            elif r is False:
                bad.append({"config": cfg_name(j[2]), "why": why})
            else:
                skipped += 1
    if not samples:
        samples = [{"config": r["config"]} for r in runs[:3]]
    cov = {"states": tot.get("states", 0) + len(cfgs), "transitions": tot.get("forks", 0) + tot.get("paths", 0), "traces_validated_against_impl": okc, "samples": samples,
           "exhaustive": exhaustive, "explanation": "states: symbolic execution states created; transitions: branch/choice forks plus completed paths, each standing for every input value satisfying its path condition; traces_validated_against_impl: explored paths whose solver-produced input was run on the native build with identical observations.",
           "bounds": spec["bounds"], "functions_encoded": len(fns), "functions": [f for f, n in sorted(fns.items(), key=lambda x: -x[1])][:120],
           "instructions_symbolically_executed": tot.get("instructions", 0), "paths": tot.get("paths", 0), "assertions_checked": tot.get("asserts", 0), "assertion_queries": tot.get("assert_queries", 0), "memory_accesses_checked": tot.get("mem_checks", 0),
           "solver_queries": tot.get("queries", 0), "sat_calls": tot.get("sat_calls", 0), "smt_calls": tot.get("z3_calls", 0), "refutations_crosschecked_with_z3": tot.get("crosschecks", 0), "solver_time_s": round(tot.get("sat_time", 0) + tot.get("z3_time", 0), 2),
           "undecided_assertions": tot.get("unknown_asserts", 0), "float_results_left_unconstrained": tot.get("fp_approx", 0),
           "configurations": runs, "native_disagreements": bad, "samples_not_comparable": skipped, "unconfirmed_counterexamples": unconf, "known_findings_seen": known}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in findings:
        if k["what"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d configurations, %d paths (%s), %d assertions, %d solver queries, %d traces agree with the native build, %d disagree, %d unconfirmed, %.1f s" % (pid, tier, len(cfgs), tot.get("paths", 0), "exhaustive within bounds" if exhaustive else "partly time limited", tot.get("asserts", 0), tot.get("queries", 0), okc, len(bad), len(unconf), time.time() - t0))
    for u in unconf[:5]:
        print("  unconfirmed: %s -- %s" % (u["violation"], u["native"]))
    for x in bad[:5]:
        print("  native disagreement: %s -- %s" % (x["config"], x["why"]))
    if confirmed:
        for desc, d, how in confirmed:
            print("  %s\n    native: %s" % (desc, how))
        print("VIOLATION property=%s replay=%s" % (pid, confirmed[0][1]))
        return 1
    return 0

def replay(d):
    j = json.load(open(os.path.join(d, "violation.json")))
    b = Builder()
    c = cfg_norm(j["config"])
    if j["violation"].get("sched"):
        c["sched"] = True
    ok, how = confirm(b, c, j["violation"], d)
    print(("reproduced: " if ok else "not reproduced: ") + how)
    return 1 if ok else 0
