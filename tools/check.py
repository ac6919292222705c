#!/usr/bin/env python3
"""Run the solver-based check of one property against /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--jobs N] [--keep]
       check.py --replay FILE          (re-run a recorded counterexample natively)
       check.py --prebuild             (build engine and bitcode only)
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin"
ENGINE = os.path.join(BUILD, "engine", "iqsym")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import registry  # noqa: E402

COMMON = ("-O1 -Xclang -disable-llvm-passes -DNDEBUG -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off "
          "-fno-stack-protector -U_FORTIFY_SOURCE -gline-tables-only -w -fsanitize=address -emit-llvm -c").split()
CXX14 = ["-std=gnu++14", "-DBOOST_LEXICAL_CAST_ASSUME_C_LOCALE", "-DBOOST_TIMER_ENABLE_DEPRECATED",
         "-Wno-error", "-Wno-deprecated-declarations", "-I/usr/include/libxml2"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def files(d, exts):
    out = []
    for root, _, fs in os.walk(d):
        out += [os.path.join(root, f) for f in fs if f.endswith(exts)]
    return sorted(out)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def pmap(fn, items, n=None):
    with cf.ThreadPoolExecutor(n or JOBS) as ex:
        return list(ex.map(fn, items))


def build_engine():
    with Lock("engine"):
        sh(["make", "-s", "-j%d" % JOBS, "-C", os.path.join(VERIF, "engine"), "B=" + os.path.join(BUILD, "engine")])


def repo_sources():
    d = os.path.join(REPO, "libiqxmlrpc")
    return files(d, (".cc", ".h", ".in", ".cpp", ".hpp", ".inl")) + [os.path.join(REPO, "CMakeLists.txt")]


def build_repo():
    """Compile the library's current sources to bitcode; returns the directory."""
    srcs = repo_sources()
    key = digest(srcs, " ".join(COMMON + CXX14))
    out = os.path.join(BUILD, "bc", key)
    with Lock("bc"):
        if os.path.exists(os.path.join(out, "ok")):
            os.utime(out)
            return out, key
        base = os.path.join(BUILD, "bc")
        if os.path.isdir(base):                 # keep only the most recent few
            ds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
            for d in ds[:-6]:
                shutil.rmtree(d, ignore_errors=True)
        inc = os.path.join(out, "inc")
        os.makedirs(inc, exist_ok=True)
        with open(os.path.join(inc, "config.h"), "w") as f:
            f.write("#define HAVE_POLL\n")
        with open(os.path.join(REPO, "CMakeLists.txt")) as f:
            cm = f.read()
        m = re.search(r"VERSION\s+\"?(\d+\.\d+\.\d+)", cm) or re.search(r"(\d+\.\d+\.\d+)", cm)
        with open(os.path.join(inc, "version.h"), "w") as f:
            f.write('#ifndef _LIBIQXMLRPC_VERSION_FILE_\n#define _LIBIQXMLRPC_VERSION_FILE_\n#define PACKAGE "Libiqxmlrpc"\n'
                    '#define VERSION "%s"\n#endif\n' % (m.group(1) if m else "0.13.6"))
        ccs = [s for s in srcs if s.endswith((".cc", ".cpp")) and "select_impl" not in s and "/win" not in s]

        def one(s):
            o = os.path.join(out, os.path.relpath(s, REPO).replace("/", "_") + ".bc")
            sh([LLVM + "/clang++"] + CXX14 + COMMON + ["-I" + inc, "-I" + REPO, s, "-o", o])
        pmap(one, ccs)
        open(os.path.join(out, "ok"), "w").close()
    return out, key


def uniq(out):
    return "%s.%d.%d.tmp" % (out, os.getpid(), threading.get_ident())


def compile_support(src, native, bcdir):
    """Compile a runtime/stub/harness source to bitcode (symbolic) or for native use."""
    inc = os.path.join(bcdir, "inc")
    deps = files(os.path.join(VERIF, "rt"), (".h",)) + files(os.path.join(VERIF, "harness"), (".h",)) + [src]
    flags = list(COMMON) + ["-I" + inc, "-I" + REPO, "-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness")]
    base = os.path.basename(src)
    if base.endswith(".c"):
        cmd = [LLVM + "/clang", "-std=gnu11"] + ([] if native else ["-fno-builtin"]) + flags
    elif base in ("cxxrt.cc", "iosrt.cc"):
        cmd = [LLVM + "/clang++", "-std=gnu++17", "-fno-access-control"] + flags
    else:
        cmd = [LLVM + "/clang++"] + CXX14 + (["-fno-access-control"] if base == "thr.cc" else []) + flags
    cmd += ["-DSYM_NATIVE=%d" % (1 if native else 0), "-include", os.path.join(VERIF, "rt", "mark.h")]
    key = digest(deps, " ".join(cmd) + os.path.basename(bcdir))
    out = os.path.join(BUILD, "sup", "%s.%s.bc" % (base, key))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = uniq(out)
        sh(cmd + [src, "-o", tmp])
        os.rename(tmp, out)
    return out


RT = ["libc.c", "cxxrt.cc", "iosrt.cc", "strrt.cc"]


def mod_key(run):
    return run["harness"] + "|" + ",".join(run["stubs"])


def support_list(run):
    return [os.path.join(VERIF, "rt", s) for s in run["stubs"]]


def build_module(run, bcdir, key):
    h = os.path.join(VERIF, "harness", run["harness"] + ".cc")
    srcs = [os.path.join(VERIF, "rt", s) for s in RT] + support_list(run) + [h]
    with Lock("mod-" + run["harness"]):
        bcs = pmap(lambda s: compile_support(s, False, bcdir), srcs)
        mk = hashlib.sha256((" ".join(bcs) + key).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, "mod")
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "%s.%s.bc" % (run["harness"], mk))
        if os.path.exists(out):
            return out
        for f in os.listdir(d):
            if f.startswith(run["harness"] + ".") and os.path.getmtime(os.path.join(d, f)) < time.time() - 7200:
                os.unlink(os.path.join(d, f))
        repo = sorted(os.path.join(bcdir, f) for f in os.listdir(bcdir) if f.endswith(".bc"))
        lk = out + ".l"
        sh([LLVM + "/llvm-link", "-o", lk] + list(reversed(bcs)) + repo)
        sh([LLVM + "/opt", "--internalize-public-api-list=sym_main,__rt_throw_bad_alloc",
            "-passes=internalize,globaldce,default<O1>,globaldce", lk, "-o", out + ".t"])
        os.unlink(lk)
        os.rename(out + ".t", out)
    return out


WRAP = ["mutex_lock", "mutex_trylock", "mutex_unlock", "mutex_init", "mutex_destroy", "cond_init", "cond_destroy", "cond_wait",
        "cond_signal", "cond_broadcast", "create", "join", "detach", "cond_timedwait", "cond_clockwait"] + \
       ["rwlock_" + w for w in ("init", "destroy", "rdlock", "wrlock", "tryrdlock", "trywrlock", "unlock")]
WRAPX = ["nanosleep", "clock_nanosleep", "usleep", "clock_gettime", "gettimeofday",
         "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"]


def build_native(run, bcdir, key, san="address"):
    """Link the same bitcode natively (ASan, or TSan to confirm data races) with the replay runtime."""
    h = os.path.join(VERIF, "harness", run["harness"] + ".cc")
    thr = "thr.cc" in run["stubs"]       # as in the engine, sequentially consistent accesses are scheduling points
    with Lock("nat"):
        objdir = os.path.join(BUILD, "nat" if san == "address" else "nat-" + san, key)
        os.makedirs(objdir, exist_ok=True)
        repo = sorted(os.path.join(bcdir, f) for f in os.listdir(bcdir) if f.endswith(".bc"))

        def cc(bc, san=san):
            edit = san == "thread" or (thr and san)
            o = os.path.join(objdir, os.path.basename(bc) + (".thr" if thr else "") + ".o")
            if not os.path.exists(o):
                if edit:
                    sh([LLVM + "/llvm-dis", bc, "-o", uniq(o) + ".ll"])
                    with open(uniq(o) + ".ll") as f:
                        t = f.read()
                    bc = uniq(o) + ".ll"
                    if san == "thread":      # the bitcode is marked for ASan
                        t = re.sub(r", sanitize_address_dyninit", "", t).replace("sanitize_address", "sanitize_thread")
                    t, n = re.subn(r"(?m)^( +)(?=(?:%\S+ = )?(?:load atomic|store atomic|atomicrmw|cmpxchg) .* seq_cst)", r"\1call void @sym_yield()\n\1", t)
                    if n and not re.search(r"(?m)^(declare|define)[^@]*@sym_yield\(", t):
                        t += "\ndeclare void @sym_yield()\n"
                    with open(bc, "w") as f:
                        f.write(t)
                sh([LLVM + "/clang", "-w", "-O1"] + (["-fsanitize=" + san] if san else []) + ["-fPIC", "-c", bc, "-o", uniq(o)])
                if edit:
                    os.unlink(bc)
                os.rename(uniq(o), o)
            return o
        robj = pmap(cc, repo)
    with Lock("nat-" + run["harness"]):
        srcs = [os.path.join(VERIF, "rt", "native.cc")] + support_list(run) + [h]
        objs = pmap(lambda s: cc(compile_support(s, True, bcdir)), srcs)
        wrap = []
        if thr:
            objs.append(cc(compile_support(os.path.join(VERIF, "rt", "sched.cc"), True, bcdir), None))
            wrap = (["-Wl,--allow-multiple-definition"] if san == "thread" else []) + ["-Wl," + ",".join(["--wrap=pthread_" + w for w in WRAP] + ["--wrap=" + w for w in WRAPX])]
        if san == "thread":
            objs.append(cc(compile_support(os.path.join(VERIF, "rt", "tsanrt.cc"), True, bcdir)))
            wrap.append("-Wl,--wrap=strftime")
        exe = os.path.join(objdir, "run-" + run["harness"] + "-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:12])
        if not os.path.exists(exe):
            sh([LLVM + "/clang++", "-fsanitize=" + san, "-rdynamic", "-o", uniq(exe)] + wrap + objs + robj +
               ["-lxml2", "-lssl", "-lcrypto", "-lboost_thread", "-lboost_system", "-lboost_date_time", "-lpthread"])
            os.rename(uniq(exe), exe)
    return exe


TSAN = "exitcode=66:atexit_sleep_ms=0:detect_deadlocks=0:symbolize=0"


def run_native(exe, assign, params, sched=None, env=None, timeout=40):
    """Returns (status, log, output)."""
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "a%d-%s" % (os.getpid(), hashlib.sha256(json.dumps([assign, params, sched, env]).encode()).hexdigest()[:12]))
    with open(fn, "w") as f:
        for k, v in assign.items():
            f.write("%s\t%s\n" % (k, v))
        if sched:
            f.write("%%sched\t%s\n" % " ".join(sched))
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:new_delete_type_mismatch=0:detect_odr_violation=0"
    e["TSAN_OPTIONS"] = TSAN
    e.update(env or {})
    try:
        p = subprocess.run([exe, fn] + ["%s=%s" % kv for kv in sorted(params.items())], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=d)
        out, rc = p.stdout.decode("latin-1"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("latin-1"), -999
    finally:
        os.unlink(fn)
    log = [l.split(" ", 2)[1:] for l in out.splitlines() if l.startswith("LOG ")]
    log = [[x[0], x[1] if len(x) > 1 else ""] for x in log]
    if rc == 0 and "\nDONE" in "\n" + out:
        st = "ok"
    elif "ASSUME-FAILED" in out:
        st = "assume"
    elif rc == 1 and "NATIVE-VIOLATION" in out:
        st = "violation"
    elif rc == 77:
        st = "asan"
    elif rc == -999:
        st = "hang"
    elif rc < 0:
        st = "signal%d" % -rc
    else:
        st = "exit%d" % rc
    return st, log, out


def run_engine(module, run, params, tier, samples, tlimit):
    out = os.path.join(BUILD, "tmp", "e%d-%s.json" % (os.getpid(), hashlib.sha256((module + json.dumps(params, sort_keys=True)).encode()).hexdigest()[:16]))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = [ENGINE, module, "-o", out, "-t", os.environ.get("VERIF_T", str(tlimit)), "--samples", str(samples), "--max-viol", str(run["max_viol"]),
           "--prefix", REPO + "/", "--preempt", str(params.get("_preempt", run["preempt"]))] + (["--delay"] if params.get("_delay") else [])
    if not run["race"]:
        cmd.append("--no-race")
    for k, v in sorted(params.items()):
        if not k.startswith("_"):
            cmd += ["-p", "%s=%d" % (k, v)]
    t0 = time.time()
    p = subprocess.run(["prlimit", "--as=%d" % (12 << 30)] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=tlimit + 240)
    if p.returncode != 0 or not os.path.exists(out):
        raise CheckError("engine failed (%d) on %s %s\n%s" % (p.returncode, run["harness"], params, p.stdout[-3000:]))
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    r["run_wall"] = time.time() - t0
    return r


def load_known():
    fn = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("{"):          # "fixed:" lines and comments suppress nothing
                out.append(json.loads(l))
    return out


def known_match(known, prop, harness, v):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and k.get("harness") == harness and \
                k.get("kind", v["kind"]) == v["kind"] and k["msg"] == v["msg"] and \
                re.search(k.get("stack_re", ""), "\n".join(v["stack"])):
            return k
    return None


NATIVE_KINDS = {"property", "memory", "uncaught-exception", "terminate", "abort", "assert", "arith", "unreachable", "stack-overflow", "deadlock", "data-race", "lock-misuse"}


def replay(run, params, v, bcdir, key):
    """Re-run a counterexample against the native build.  Returns (confirmed, how)."""
    if not run["native"]:
        return True, "symbolic interpreter only (no native replay for this harness)"
    p = {k: x for k, x in params.items() if not k.startswith("_")}
    if v["kind"] == "data-race":
        exe = build_native(run, bcdir, key, "thread")
        # the second run does not take libxml2's own locks for synchronisation of its callers
        for env in ({}, {"TSAN_OPTIONS": TSAN + ":suppressions=" + os.path.join(VERIF, "rt", "tsan.supp")}):
            st, log, out = run_native(exe, v["assign"], p, v.get("sched"), env)
            if "WARNING: ThreadSanitizer: data race" in out:
                break
        else:
            return False, "the thread sanitizer does not confirm the race (%s)" % st
        return True, "thread sanitizer, same schedule: " + "; ".join(l for l in out.splitlines() if "SUMMARY" in l)[:300]
    exe = build_native(run, bcdir, key)
    if v["kind"] == "uninit":
        a = [run_native(exe, v["assign"], p, v.get("sched"), env={"NATIVE_FILL": f}) for f in ("0", "90", "165", "255")]
        if any(x[0] not in ("ok",) for x in a) or any(x[1] != a[0][1] for x in a):
            return True, "native runs with different initial memory contents differ or fail: " + ",".join(x[0] for x in a)
        return True, "value read before initialisation (interpreter); native runs agree"
    st, log, out = run_native(exe, v["assign"], p, v.get("sched"))
    if st in ("ok", "assume"):
        return False, "native run ended '%s'" % st
    tail = [l for l in out.splitlines() if "NATIVE-VIOLATION" in l or "ERROR: AddressSanitizer" in l or "terminate called" in l or "what()" in l]
    return True, "native run: %s %s" % (st, "; ".join(tail)[:300])


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if args and args[0] == "--replay":
        return do_replay(args[1])
    t0 = time.time()
    build_engine()
    bcdir, key = build_repo()
    if args and args[0] == "--prebuild":
        return 0
    prop = args[0]
    spec = registry.CHECKS[prop]
    jobs = []
    for run in spec["runs"]:
        plist = list(run["quick"])
        if tier == "thorough" and run["thorough"]:
            plist += [x for x in run["thorough"] if x not in plist]
        for p in plist:
            jobs.append((run, p))
    mods = {}
    uniq = list({mod_key(r): r for r, _ in jobs}.values())
    for r, m in zip(uniq, pmap(lambda r: build_module(r, bcdir, key), uniq, 4)):
        mods[mod_key(r)] = m
    t_build = time.time() - t0
    budget = 780 if tier == "quick" else 3 * 3600

    def go(j):
        run, p = j
        left = max(30, budget - (time.time() - t0))
        return run_engine(mods[mod_key(run)], run, p, tier, 4, min(left, run["t"] if tier == "quick" else 4 * 3600))
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][1].get("_w", 0))
    res = [None] * len(jobs)
    for i, r in zip(order, pmap(lambda i: go(jobs[i]), order)):
        res[i] = r
    t_eng = time.time() - t0 - t_build

    known = load_known()
    viols, knowns, unconf, errors = [], {}, [], []
    covers = {}
    inc = {}
    for (run, p), r in zip(jobs, res):
        for c in r["covers"]:
            covers.setdefault(run["harness"], set()).add(c)
        for k, n in r["incomplete"].items():
            inc.setdefault("%s %s: %s" % (run["harness"], p, k), n)
        for v in r["violations"]:
            k = known_match(known, prop, run["harness"], v)
            if k:
                knowns.setdefault(k["id"], k)
                continue
            if any(x[0] == run["harness"] and x[2]["msg"] == v["msg"] and x[2]["kind"] == v["kind"] and x[2]["loc"] == v["loc"] for x in viols):
                continue
            viols.append((run["harness"], (run, p), v))
    for run in spec["runs"]:
        miss = [c for c in run["covers"] if c not in covers.get(run["harness"], set())]
        if miss:
            errors.append("vacuous: harness %s never reached %s" % (run["harness"], ", ".join(miss)))

    # replay counterexamples, validate sampled paths against the native build
    edir = os.path.join(VERIF, "evidence", "replay")
    confirmed = []
    for n, (_, (run, p), v) in enumerate(viols[:8]):
        ok, how = replay(run, p, v, bcdir, key)
        rec = dict(property=prop, harness=run["harness"], stubs=list(run["stubs"]), params=p, kind=v["kind"], msg=v["msg"], loc=v["loc"], stack=v["stack"],
                   sched=v["sched"], assign=v["assign"], replay=how, confirmed=ok)
        os.makedirs(edir, exist_ok=True)
        fn = os.path.join(edir, "%s-%d.json" % (prop, n))
        with open(fn, "w") as f:
            json.dump(rec, f, indent=1)
        (confirmed if ok else unconf).append((fn, rec))
    validated, mismatches, samples = 0, [], []
    if tier == "thorough" or os.environ.get("VERIF_VALIDATE", "1") == "1":
        todo = []
        for (run, p), r in zip(jobs, res):
            if not run["native"]:
                continue
            for s in r["samples"]:
                todo.append((run, p, s))
        if todo:
            exes = {}
            for run, p, s in todo:
                if mod_key(run) not in exes:
                    exes[mod_key(run)] = build_native(run, bcdir, key)

            def val(x):
                run, p, s = x
                pp = {k: y for k, y in p.items() if not k.startswith("_")}
                return run_native(exes[mod_key(run)], s["assign"], pp, s.get("sched"))
            for x, (st, log, out) in zip(todo, pmap(val, todo)):
                run, p, s = x
                elog = [list(e) for e in s["log"]]
                if st == "ok" and log == elog:
                    validated += 1
                else:
                    mismatches.append(dict(harness=run["harness"], params=p, assign=s["assign"], engine=elog[:20], native=log[:20], status=st, tail=out[-400:]))
    for (run, p), r in zip(jobs, res):
        for s in r["samples"][:1]:
            if len(samples) < 12:
                samples.append(dict(harness=run["harness"], params=p, input=s["assign"], observed=s["log"][:12]))

    tot = lambda k: sum(r[k] for r in res)  # noqa: E731
    fns, lines = set(), set()
    for r in res:
        fns.update(r["functions"])
        lines.update(r["lines"])
    if os.environ.get("VERIF_LINES"):          # development: which lines of the sources were executed
        with open(os.path.join(os.environ["VERIF_LINES"], prop + ".lines"), "w") as f:
            f.write("\n".join(sorted(lines)))
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(confirmed),
        coverage=dict(
            states=tot("paths") + tot("paths_error"), transitions=tot("instructions"), traces_validated_against_impl=validated,
            samples=samples or [dict(note="no completed path")],
            exhaustive=not inc and not viols,
            path_forks=tot("forks"), schedule_points=tot("sched_points"),
            property_assertions_symbolic=tot("checks_symbolic"), property_assertions_concrete=tot("checks_concrete"),
            property_queries_discharged=tot("property_queries"), solver_queries=tot("solver_queries"),
            solver_unsat=tot("solver_unsat"), solver_sat=tot("solver_sat"), solver_unknown=tot("solver_unknown"),
            branch_decisions=tot("branch_queries"), decided_by_exact_byte_domain=tot("domain_decided"), decided_by_enumeration=tot("enumerated"),
            confirmed_by_solver=dict(queries=tot("confirm_queries"), whole_path_conditions=tot("confirm_paths"), seconds=round(tot("confirm_s"), 3)),
            solver_seconds=round(tot("solver_s"), 3), slowest_query_s=max(r["solver_max_s"] for r in res),
            engine_seconds=round(tot("wall_s"), 2), build_seconds=round(t_build, 2),
            functions_encoded=sorted(fns), source_lines_encoded=len(lines),
            instances=[dict(harness=run["harness"], params=p, paths=r["paths"], checks=r["checks_symbolic"] + r["checks_concrete"], s=round(r["wall_s"], 2), complete=r["complete"])
                       for (run, p), r in zip(jobs, res)],
            reachability_witnesses={h: sorted(c) for h, c in covers.items()},
            source_digest=key, incomplete=inc, known_findings=sorted(knowns), trace_mismatches=mismatches[:5],
        ),
        assumptions=spec.get("assumptions", []),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("%s: %d instances, %d paths, %d+%d assertions, %d solver queries (%.1fs), %d traces validated, wall %.1fs (build %.1f, engine %.1f)" % (
        prop, len(jobs), tot("paths"), tot("checks_symbolic"), tot("checks_concrete"), tot("solver_queries"), tot("solver_s"), validated, wall, t_build, t_eng))
    for k in knowns.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if confirmed:
        for fn, rec in confirmed:
            print("  %s: %s at %s  [%s] %s" % (rec["kind"], rec["msg"], rec["loc"], rec["replay"], json.dumps(rec["params"])))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][0]))
        return 1
    rc = 0
    for fn, rec in unconf:
        print("UNCONFIRMED %s: %s at %s (%s) %s" % (rec["kind"], rec["msg"], rec["loc"], rec["replay"], fn))
        rc = 2
    for e in errors:
        print("ERROR " + e)
        rc = 2
    for k, n in list(inc.items())[:10]:
        print("INCOMPLETE %s (%d)" % (k, n))
        rc = 2
    for m in mismatches[:3]:
        print("TRACE-MISMATCH " + json.dumps(m)[:1500])
        rc = 2
    return rc


def do_replay(fn):
    rec = json.load(open(fn))
    build_engine()
    bcdir, key = build_repo()
    run = [r for r in registry.CHECKS[rec["property"]]["runs"] if r["harness"] == rec["harness"] and list(r["stubs"]) == rec["stubs"]][0]
    exe = build_native(run, bcdir, key)
    st, log, out = run_native(exe, rec["assign"], {k: v for k, v in rec["params"].items() if not k.startswith("_")}, rec.get("sched"))
    print(out)
    print("status:", st)
    return 0 if st == "ok" else 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR " + str(e))
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("ERROR timeout: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("ERROR the check itself failed")
        sys.exit(2)
