#!/usr/bin/env python3
"""Driver: builds /repo's library + a harness in the needed configurations, runs case ranges, judges, writes evidence."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile
import threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import CONFIGS, PLAN  # noqa: E402

CPUS = min(8, os.cpu_count() or 8)
FAIL_RE = re.compile(r"^@(VIOLATION|FOREIGN) (\{.*\})\s*$", re.M)


def log(*a):
    print(*a, flush=True)


class Harness(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------------------------------------------------- build
def base_flags(cfg):
    f = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-pthread"] + cfg["flags"]
    if cfg.get("race"):
        f += ["-include", VERIF + "/harness/race_pre.hpp"]
    return f


def link_flags(cfg):
    f = base_flags(cfg)
    if cfg.get("race"):
        f = [x for x in f if x not in ("-fsanitize=thread", "-include", VERIF + "/harness/race_pre.hpp")]
    return f


def configure(name, cfg):
    bdir = os.path.join(BUILD, name)
    os.makedirs(bdir, exist_ok=True)
    args = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
            "-DCMAKE_CXX_COMPILER=" + cfg.get("cxx", "g++"), "-DCMAKE_CXX_FLAGS=" + " ".join(base_flags(cfg)),
            "-DYACLIB_CXX_STANDARD=20", "-DYACLIB_TEST=OFF", "-DYACLIB_LOG=DEBUG",
            "-DYACLIB_FLAGS=" + ";".join(["CORO"] + cfg.get("yaclib_flags", [])), "-DYACLIB_FAULT=" + cfg["fault"]]
    key = hashlib.sha1(repr(args).encode()).hexdigest()
    stamp = os.path.join(bdir, "verif.args")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != key:
        shutil.rmtree(bdir)
        os.makedirs(bdir)
    r = sh(args)
    if r.returncode != 0:
        shutil.rmtree(bdir)
        os.makedirs(bdir)
        r = sh(args)
        if r.returncode != 0:
            raise Harness("cmake failed for %s:\n%s" % (name, r.stdout[-4000:]))
    open(stamp, "w").write(key)
    return bdir


def harness_flags(bdir, cfg):
    f = base_flags(cfg) + ["-I" + REPO + "/include", "-I" + bdir + "/include", "-I" + REPO + "/src",
                           "-I" + VERIF + "/harness", "-DYACLIB_LOG_DEBUG"]
    if cfg.get("cxx", "g++").startswith("g++"):
        f.append("-fcoroutines")
    return f


def compile_harness(name, cfg, bdir, harness):
    """Objects are cached by content of the depfile's files (sha1), so that nothing depends on time stamps."""
    src = os.path.join(VERIF, "harness", harness + ".cpp")
    obj = os.path.join(bdir, harness + ".o")
    dep = obj + ".d"
    cmd = [cfg.get("cxx", "g++")] + harness_flags(bdir, cfg) + ["-MMD", "-MF", dep, "-c", src, "-o", obj]

    def digest():
        h = hashlib.sha1(repr(cmd).encode())
        for f in open(dep).read().replace("\\\n", " ").split(":", 1)[1].split():
            if f.startswith("/usr"):
                continue
            h.update(open(f, "rb").read())
        return h.hexdigest()

    st = obj + ".sha"
    try:
        if os.path.exists(obj) and open(st).read() == digest():
            return obj
    except (OSError, IndexError):
        pass
    r = sh(cmd)
    if r.returncode != 0:
        raise Harness("harness %s does not compile against %s:\n%s" % (harness, name, r.stdout[-6000:]))
    open(st, "w").write(digest())
    return obj


def build_lib(name, bdir):
    r = sh(["ninja", "-C", bdir, "-j", str(CPUS), "yaclib"])
    if r.returncode != 0:
        raise Harness("library does not build in %s:\n%s" % (name, r.stdout[-6000:]))
    for p in glob.glob(bdir + "/**/libyaclib.a", recursive=True):
        return p
    raise Harness("libyaclib.a not found in " + bdir)


SHIM_OPS = ["load", "store", "exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor",
            "compare_exchange_strong", "compare_exchange_weak"]


RACE_WRAP = ["_ZN6yaclib6detail5fiber5Mutex4lockEv", "_ZN6yaclib6detail5fiber5Mutex8try_lockEv",
             "_ZN6yaclib6detail5fiber5Mutex6unlockEv", "_ZN6yaclib6detail5fiber17ConditionVariable10notify_oneEv",
             "_ZN6yaclib6detail5fiber17ConditionVariable10notify_allEv",
             "_ZN6yaclib5fault9Scheduler8ScheduleEPNS_6detail5fiber9FiberBaseE", "_ZN6yaclib6detail5fiber6Thread4joinEv",
             "_ZN6yaclib6detail5fiber16ExecutionContext5SetupENS1_10AllocationEPFvPvES4_",
             "_ZN6yaclib6detail5fiber16ExecutionContext8SwitchToERS2_",
             "_ZN6yaclib6detail5fiber16ExecutionContext4ExitERS2_", "memcpy", "memmove", "memset",
             "__cxa_allocate_exception"]


def fault_symbols(bdir):
    """The library functions defined by the fault layer's own sources, whatever they are called: they belong to the runtime
    under which the monitored code runs."""
    fault, other = set(), set()
    for root, _, files in os.walk(bdir):
        objs = [os.path.join(root, f) for f in files if f.endswith(".cpp.o")]
        if objs:
            dst = fault if "/fault" in root[len(bdir):] else other
            for line in sh(["nm", "--defined-only"] + objs).stdout.splitlines():
                w = line.split()
                if len(w) == 3 and w[1] in "tT" and "6yaclib" in w[2]:
                    dst.add(w[2])
    return sorted(fault - other)


def race_flags(bdir):
    obj = os.path.join(bdir, "race_rt.o")
    with open(os.path.join(bdir, "fault_syms.inc"), "w") as f:
        f.write("".join('"%s",\n' % x for x in fault_symbols(bdir)))
    r = sh(["g++", "-std=c++20", "-O2", "-g1", "-Wall", "-I", bdir, "-c", os.path.join(VERIF, "harness", "race_rt.cpp"),
            "-o", obj])
    if r.returncode != 0:
        raise Harness("race runtime: " + r.stdout)
    r = sh(["objcopy"] + ["--redefine-sym=%s=__real_%s" % (f, f) for f in ("memcpy", "memmove", "memset")] + [obj])
    if r.returncode != 0:  # the runtime's own calls are not wrapped
        raise Harness("race runtime: " + r.stdout)
    return [obj] + ["-Wl,--wrap=" + w for w in RACE_WRAP]


def shim_flags(bdir, cfg):
    if cfg.get("race"):
        return race_flags(bdir)
    """TSan configurations model atomic_thread_fence, see harness/tsan_shim.c."""
    if "-fsanitize=thread" not in cfg["flags"]:
        return []
    obj = os.path.join(bdir, "tsan_shim.o")
    r = sh(["gcc", "-O1", "-fPIC", "-c", os.path.join(VERIF, "harness", "tsan_shim.c"), "-o", obj])
    if r.returncode != 0:
        raise Harness("tsan shim: " + r.stdout)
    return [obj, "-Wl,--wrap=__tsan_atomic_thread_fence",
            "-Wl,--wrap=__cxa_end_catch", "-Wl,--wrap=_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] + [
        "-Wl,--wrap=__tsan_atomic%d_%s" % (n, op) for n in (8, 32, 64) for op in SHIM_OPS]


def build_all(runs, skipped=None):
    """An optional configuration that cannot be built on this tree is left out (and reported), the others must build."""
    optional = sorted({r["config"] for r in runs if CONFIGS[r["config"]].get("race")})
    if optional and skipped is not None and len({r["config"] for r in runs}) > 1:
        exes = build_some([r for r in runs if r["config"] not in optional])
        try:
            exes.update(build_some([r for r in runs if r["config"] in optional]))
        except Harness as e:
            skipped.append("configuration %s is not available on this tree: %s" % (",".join(optional), str(e)[-1500:]))
        return exes
    return build_some(runs)


def build_some(runs):
    need = {}
    for r in runs:
        need.setdefault(r["config"], set()).add(r["harness"])
    with cf.ThreadPoolExecutor(CPUS) as ex:
        bdirs = dict(zip(need, ex.map(lambda n: configure(n, CONFIGS[n]), need)))
        objs = {(n, h): ex.submit(compile_harness, n, CONFIGS[n], bdirs[n], h) for n in need for h in sorted(need[n])}
        libs = {n: ex.submit(build_lib, n, bdirs[n]) for n in need}
        shims = {}
        for n in need:
            libs[n].result()  # the shims look at what was built
            shims[n] = ex.submit(shim_flags, bdirs[n], CONFIGS[n])
        for n in need:
            shims[n].result()

        def link(n, h, obj):
            exe, cfg = os.path.join(bdirs[n], h), CONFIGS[n]
            r = sh([cfg.get("cxx", "g++")] + link_flags(cfg) + [obj] + shims[n].result() + [libs[n].result()] + ["-o", exe])
            if r.returncode != 0:
                raise Harness("link failed %s/%s:\n%s" % (n, h, r.stdout[-6000:]))
            return exe

        exes = {k: ex.submit(link, k[0], k[1], o.result()) for k, o in objs.items()}
        return {k: f.result() for k, f in exes.items()}


# --------------------------------------------------------------------------------------------------------------- run
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=%d:abort_on_error=0:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=0:handle_abort=0:malloc_context_size=12:quarantine_size_mb=16",
    "LSAN_OPTIONS": "exitcode=98:print_suppressions=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:second_deadlock_stack=1:history_size=4:report_thread_leaks=0:"
                    "report_signal_unsafe=0:detect_deadlocks=0:suppressions=" + VERIF + "/harness/tsan.supp",
}


def read_progress(path):
    try:
        d = open(path, "rb").read()
        idx, done = struct.unpack("<QQ", d[:16])
        return idx, done, d[16:].split(b"\0", 1)[0].decode("utf-8", "replace")
    except Exception:
        return 0, 0, ""


def proc_sample(pid):
    """(all threads sleeping, total cpu ticks) of our own child."""
    cpu, asleep = 0, True
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            f = open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()
            if f[0] != "S":
                asleep = False
            cpu += int(f[11]) + int(f[12])
    except OSError:
        return False, -1
    return asleep, cpu


def is_leak(err):
    return "ERROR: LeakSanitizer" in err and "ERROR: AddressSanitizer" not in err


def summarize_crash(rc, err):
    frame = ""
    kind = "exit%d" % rc if rc >= 0 else "signal%d" % -rc
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w\-]+)", err)
    m2 = re.search(r"(runtime error: [^\n]*)", err)
    if m:
        kind = m.group(1) + ":" + m.group(2)
    if m2 and "AddressSanitizer" not in kind:
        kind = "UBSan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m2.group(1))[:90]
    if is_leak(err):
        kind = "LeakSanitizer:leak"
    if "terminate called" in err:
        m3 = re.search(r"terminate called[^\n]*", err)
        kind = m3.group(0)[:90]
    for line in err.splitlines():
        m4 = re.search(r"#\d+ .* (?:in )?.*?/repo/((?:include|src)/[\w/\.]+):\d+", line)
        if m4:
            frame = m4.group(1)
            break
    return "crash:%s@%s" % (kind, frame)


LIVELOCK_S = 60


class Stop:
    flag = False


def run_chunk(run, exe, cfg, prop, seed, frm, to, tmp, tag, timeout):
    """Runs [frm,to); returns dict(violations, foreign, stats, inconclusive)."""
    res = {"viol": [], "foreign": [], "inconclusive": [], "stats": [], "done": 0}
    restarts = 0
    cur = frm
    while cur < to and not Stop.flag:
        prefix = os.path.join(tmp, "%s_%d_%d" % (tag, frm, restarts))
        env = dict(os.environ)
        for k, v in SAN_ENV.items():
            env[k] = v % (1 if run.get("leaks", cfg.get("leaks", 0)) else 0) if "%d" in v else v
        env.update(cfg.get("env", {}))
        env.update(run.get("env", {}))
        if run.get("tmpdir"):
            env["TMPDIR"] = tmp
        cmd = [exe, "--seed", str(seed), "--from", str(cur), "--to", str(to), "--prop", prop, "--out", prefix,
               "--progress", prefix + ".progress"]
        if run.get("mode"):
            cmd += ["--mode", run["mode"]]
        so, se = open(prefix + ".out", "w+"), open(prefix + ".err", "w+")
        p = subprocess.Popen(cmd, stdout=so, stderr=se, env=env, start_new_session=True)
        last, last_t, hang, cpu0 = (-1, -1), time.time(), None, None
        t0 = time.time()
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if Stop.flag or now - t0 > timeout:
                hang = "stop" if Stop.flag else "slow"
            idx, done, _ = read_progress(prefix + ".progress")
            if (idx, done) != last:
                last, last_t, cpu0 = (idx, done), now, None
            elif cfg["fault"] == "FIBER" and now - last_t > 4:
                # one OS thread runs the whole case, which takes milliseconds: LIVELOCK_S of its own CPU time (so that the
                # load of the machine does not matter) without finishing it is a loop that does not end
                c = proc_sample(p.pid)[1]
                if c >= 0:
                    cpu0 = c if cpu0 is None else cpu0
                    if c - cpu0 > LIVELOCK_S * os.sysconf("SC_CLK_TCK") and idx < to:
                        hang = "livelock"
            if hang is None and now - last_t > run.get("hang_s", 25):
                a1, c1 = proc_sample(p.pid)
                time.sleep(4)
                a2, c2 = proc_sample(p.pid)
                if p.poll() is not None:
                    break
                if read_progress(prefix + ".progress")[:2] != last:
                    continue
                if a1 and a2 and c1 == c2 and c1 >= 0:
                    hang = "blocked"
                elif now - last_t > run.get("hang_s", 25) * 5 and cfg["fault"] != "FIBER":
                    hang = "busy"
            if hang:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        so.seek(0)
        out = so.read()
        se.seek(0)
        err = se.read(400000)
        so.close()
        se.close()
        idx, done, scen = read_progress(prefix + ".progress")
        try:
            res["stats"].append((json.load(open(prefix + ".json")), prefix + ".hash"))
        except (OSError, ValueError):
            res["stats"].append(({"evaluations": max(0, idx - cur), "nontrivial": 0, "counters": {}, "samples": []}, None))
        rc = p.returncode
        rerun = " ".join(cmd[:3] + ["--one", str(idx), "--prop", prop] + (["--mode", run["mode"]] if run.get("mode") else []))
        envs = " ".join("%s='%s'" % (k, env[k]) for k in SAN_ENV)
        item = {"harness": run["harness"], "config": run["config"], "case": idx, "scenario": scen, "seed": seed,
                "mode": run.get("mode", ""), "rerun": rerun, "env": envs, "stderr": err[-6000:]}
        if hang == "stop":
            break
        if hang in ("slow", "busy"):
            item["key"] = "timeout:" + hang
            res["inconclusive"].append(item)
            cur, restarts = idx + 1, restarts + 1
            if hang == "slow" or restarts > 3:
                break
            continue
        if hang == "livelock":
            item["key"] = "hang:livelock"
            item["msg"] = "the case did not end within %d s of CPU time" % LIVELOCK_S
            res["viol"].append(item)
            break
        if hang == "blocked":
            item["key"] = "hang:all-threads-blocked"
            item["msg"] = "every thread of the process is blocked and nothing will wake it"
            res["viol"].append(item)
            cur, restarts = idx + 1, restarts + 1
            if restarts > 3:
                break
            continue
        if rc == 0:
            if "@SKIP" in out:
                res["inconclusive"].append(dict(item, key="instrument-does-not-fit"))
            if "@DONE" not in out:
                raise Harness("harness ended without @DONE: %s" % cmd)
            break
        if rc in (77, 78):
            for m in FAIL_RE.finditer(out):
                d = json.loads(m.group(2))
                item.update(key=d["key"], msg=d["msg"], scenario=d["scenario"], props=d["props"], case=d["case"])
                (res["viol"] if m.group(1) == "VIOLATION" else res["foreign"]).append(dict(item))
            if not FAIL_RE.search(out):
                raise Harness("exit %d without report: %s\n%s" % (rc, cmd, out[-2000:]))
        elif rc == 79:
            raise Harness("harness error: %s\n%s" % (cmd, out[-2000:]))
        elif rc == -9:
            item["key"] = "killed"
            res["inconclusive"].append(item)
        else:
            item["key"] = summarize_crash(rc, err)
            item["msg"] = (re.search(r"SUMMARY:[^\n]*", err) or re.search(r"runtime error[^\n]*", err) or
                           re.search(r"terminate[^\n]*", err) or re.match(r"[^\n]*", err)).group(0)[:400]
            if is_leak(err):
                item["case"] = "%d..%d" % (cur, to)
                if prop not in ("C03", "C05", "C06", "C09", "C10", "C11", "C12", "C13", "C16"):
                    item["props"] = "C03"
                    res["foreign"].append(item)
                    break
                res["viol"].append(item)
                break
            res["viol"].append(item)
        restarts += 1
        cur = idx + 1
        if restarts > 60:
            break
    return res


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def match_known(known, prop, item):
    for k in known.get("findings", []):
        if k["property"] == prop and re.search(k["key"], item["key"]) and \
                re.search(k.get("harness", ""), item["harness"]) and re.search(k.get("scenario", ""), item.get("scenario", "")):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="only verify that the tools are there")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", help="harness:config filter (development)")
    ap.add_argument("--keep-going", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args()
    if a.selftest:
        for t in ("cmake", "ninja", "g++"):
            if shutil.which(t) is None:
                log("missing tool", t)
                return 2
        log("tools present; every check builds what it needs from", REPO)
        return 0
    prop, t0 = a.property, time.time()
    plan = PLAN[prop]
    runs = [r for r in plan["runs"] if (a.tier == "thorough" or r.get("quick", 0) > 0)]
    if a.only:
        runs = [r for r in runs if a.only in r["harness"] + ":" + r["config"] + ":" + r.get("mode", "")]
    deadline = t0 + (700 if a.tier == "quick" else plan.get("thorough_s", 3 * 3600))
    try:
        skipped = []
        exes = build_all(runs, skipped)
        for x in skipped:
            log("note:", x)
        runs = [r for r in runs if (r["config"], r["harness"]) in exes]
    except Harness as e:
        log("BUILD-ERROR", e)
        return 2
    build_s = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    known = load_known()
    viol, foreign, inconcl, knownhits = [], [], [], []
    stats = {}
    try:
        tasks = []
        for ri, r in enumerate(runs):
            n = int((r.get("quick", 0) if a.tier == "quick" else r.get("thorough", r.get("quick", 0) * 20)) * a.scale)
            n = max(n, 1)
            par = r.get("threads", 1)
            chunks = max(1, min(n, (CPUS * 3 if a.tier == "quick" else CPUS * 40)))
            if r.get("single"):
                chunks = 1
            if r.get("chunk"):
                chunks = max(1, n // r["chunk"])
            step = -(-n // chunks)
            for frm in range(0, n, step):
                tasks.append((ri, r, frm, min(n, frm + step)))
        # interleave the runs so that early stops still see every run
        tasks.sort(key=lambda t: (t[2] / max(1, t[3]), t[0]))
        import random
        random.Random(1).shuffle(tasks)

        def one(t):
            ri, r, frm, to = t
            if Stop.flag:
                return ri, None
            left = deadline - time.time()
            if left < 5:
                return ri, {"viol": [], "foreign": [], "stats": [], "inconclusive":
                            [{"harness": r["harness"], "config": r["config"], "key": "out-of-time", "case": frm}]}
            return ri, run_chunk(r, exes[(r["config"], r["harness"])], CONFIGS[r["config"]], prop, a.seed, frm, to, tmp,
                                 "r%d" % ri, min(left, r.get("timeout", 10 ** 9)))

        workers = CPUS
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(one, t) for t in tasks]
            for f in cf.as_completed(futs):
                ri, res = f.result()
                if res is None:
                    continue
                s = stats.setdefault(ri, {"evaluations": 0, "nontrivial": 0, "counters": {}, "samples": [], "hashes": set()})
                for st, hf in res["stats"]:
                    s["evaluations"] += st["evaluations"]
                    s["nontrivial"] += st["nontrivial"]
                    for k, v in st["counters"].items():
                        s["counters"][k] = s["counters"].get(k, 0) + v
                    if len(s["samples"]) < 3:
                        s["samples"] += st["samples"][:1]
                    if hf and os.path.exists(hf):
                        b = open(hf, "rb").read()
                        s["hashes"].update(struct.unpack("<%dQ" % (len(b) // 8), b))
                foreign += res["foreign"]
                inconcl += res["inconclusive"]
                for v in res["viol"]:
                    k = match_known(known, prop, v)
                    if k:
                        knownhits.append((k, v))
                    else:
                        viol.append(v)
                        if not a.keep_going:
                            Stop.flag = True
    except Harness as e:
        log("HARNESS-ERROR", e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # a violation is replayed alone once, so that the report says whether it is reproducible (it counts either way)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*")):
        os.unlink(old)
    lines, seen = [], set()
    for v in viol:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(lines)))
        if isinstance(v["case"], int) and time.time() < deadline + 60:
            try:
                env = dict(os.environ)
                for k, x in SAN_ENV.items():
                    env[k] = x % 0 if "%d" in x else x
                rr = subprocess.run(v["rerun"].split(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                    errors="replace", timeout=30, env=env)
                v["replayed_alone"] = "reproduced" if rr.returncode != 0 else "not reproduced by one re-run"
            except subprocess.TimeoutExpired:
                v["replayed_alone"] = "timed out"
        json.dump(v, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        log("--- %s/%s %s case=%s key=%s\n    %s\n    scenario: %s\n    %s" % (
            v["harness"], v["config"], v.get("mode", ""), v["case"], v["key"], v.get("msg", ""), v.get("scenario", "")[:500],
            v["rerun"]))
        if len(lines) >= 10:
            break
    for k in {id(k): k for k, _ in knownhits}.values():
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    fk = {}
    for v in foreign:
        fk.setdefault((v.get("props"), v["key"]), []).append(v)
    for (p, k), vs in fk.items():
        log("note: %d case(s) stopped by an oracle of another property (%s): %s | %s" % (len(vs), p, k, vs[0]["rerun"]))
    for v in inconcl[:5]:
        log("inconclusive: %s/%s case=%s %s" % (v["harness"], v["config"], v["case"], v["key"]))

    ev = sum(s["evaluations"] for s in stats.values())
    distinct = sum(len(s["hashes"]) for s in stats.values())
    samples = []
    for ri, s in sorted(stats.items()):
        samples += ["%s/%s%s %s" % (runs[ri]["harness"], runs[ri]["config"], ":" + runs[ri]["mode"] if runs[ri].get("mode") else "", x)
                    for x in s["samples"][:2]]
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": plan["level"],
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": distinct, "rule": plan["rule"], "samples": samples or ["none"],
            "per_run": [{"harness": runs[ri]["harness"], "config": runs[ri]["config"], "mode": runs[ri].get("mode", ""),
                         "evaluations": s["evaluations"], "distinct_nontrivial": len(s["hashes"]),
                         "counters": s["counters"]} for ri, s in sorted(stats.items())],
            "inconclusive": len(inconcl), "stopped_by_foreign_oracle": len(foreign), "known_finding_hits": len(knownhits),
            "build_s": round(build_s, 1), "configurations_skipped": skipped,
        },
        "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(seen),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    log("%s %s: %d executions, %d distinct non-trivial, build %.0fs, total %.0fs" % (prop, a.tier, ev, distinct, build_s,
                                                                                  time.time() - t0))
    for r in evidence["coverage"]["per_run"]:
        log("   %s/%s %s: %d/%d %s" % (r["harness"], r["config"], r["mode"], r["evaluations"], r["distinct_nontrivial"],
                                       json.dumps(r["counters"])[:400]))
    if lines:
        for l in lines:
            log(l)
        return 1
    if ev == 0:
        log("HARNESS-ERROR nothing was executed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
