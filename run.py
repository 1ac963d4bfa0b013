#!/usr/bin/env python3
"""Driver: builds /repo's current tree with the harness of one property, explores it
exhaustively within the tier's bounds, confirms any violation by replaying it,
and writes evidence/<id>.json.   usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CCS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CC = os.environ.get("MC_CC", "clang")
CXX = os.environ.get("MC_CXX", "clang++")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,function,vptr,nonnull-attribute,pointer-overflow",
       "-fno-sanitize-recover=all"]
BASE = ["-g1", "-O1", "-fno-omit-frame-pointer", "-pthread"]
WRAPS = ["malloc", "calloc", "realloc", "strdup"]
NSHARDS = int(os.environ.get("MC_SHARDS", "8"))


def log(*a):
    print(*a, flush=True)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def digest(files, extra):
    h = hashlib.sha256(json.dumps(extra).encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_files():
    r = []
    for d in ("src", "include"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in fs if f.endswith((".c", ".h", ".subst", ".cpp"))]
    return r


def version_h(out):
    s = open(os.path.join(REPO, "src/version.h.subst")).read()
    for k, v in (("VERSION_STRING", "v0.0.2.0"), ("VERSION_MAJOR", "0"), ("VERSION_MINOR", "0"),
                 ("VERSION_PATCH", "2"), ("VERSION_REVISION", "0")):
        s = s.replace("==%s==" % k, v)
    with open(os.path.join(out, "version.h"), "w") as f:
        f.write(s)


def atomic_dir(key, make):
    """content addressed build directory, created atomically"""
    final = os.path.join(BUILD, key)
    if os.path.exists(os.path.join(final, ".ok")):
        return final
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=key + ".", dir=BUILD)
    try:
        make(tmp)
        open(os.path.join(tmp, ".ok"), "w").close()
        if os.path.isdir(final):
            shutil.rmtree(final, ignore_errors=True)
        os.rename(tmp, final)
    except OSError:
        if os.path.exists(os.path.join(final, ".ok")):
            shutil.rmtree(tmp, ignore_errors=True)
            return final
        raise
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return final


class BuildError(Exception):
    pass


def compile_many(jobs):
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda c: sh(c), jobs):
            if r.returncode:
                raise BuildError(r.stdout[-6000:])


def build_lib(san, defines=()):
    files = tree_files()
    flags = [CC] + BASE + san + list(defines)
    key = "lib-" + digest(files, flags)

    def make(d):
        version_h(d)
        jobs, objs = [], []
        for c in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
            o = os.path.join(d, os.path.basename(c)[:-2] + ".o")
            objs.append(o)
            jobs.append([CC, "-std=gnu99", "-w", "-D_GNU_SOURCE"] + BASE + san + list(defines) +
                        ["-fPIC", "-I" + d, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
                         "-c", c, "-o", o])
        compile_many(jobs)
        r = sh(["ar", "rcs", os.path.join(d, "libccs.a")] + objs)
        if r.returncode:
            raise BuildError(r.stdout)
    return atomic_dir(key, make)


def asan_runtime():
    for n in ("libclang_rt.asan-x86_64.so", "libclang_rt.asan.so"):
        f = sh([CC, "-print-file-name=" + n]).stdout.strip()
        if os.path.isabs(f) and os.path.exists(f):
            return f
    raise BuildError("no shared AddressSanitizer runtime")


def build_python(cfg):
    """shared library for the Python bindings of the current tree, and a launcher that runs one Python harness on it"""
    san = ["-fsanitize=address,undefined", "-shared-libasan"] + SAN[1:]
    lib = build_lib(san)
    hook = os.path.join(VERIF, "harness", "pyhook.c")
    cmd = [CC] + BASE + san + ["-shared", "-fPIC", "-w", hook, "-Wl,--whole-archive", os.path.join(lib, "libccs.a"),
                               "-Wl,--no-whole-archive"] + ["-Wl,--wrap=" + w for w in WRAPS + ["free"]] + ["-lgsl", "-lgslcblas", "-lm"]

    def make(d):
        r = sh(cmd + ["-o", os.path.join(d, "libcconfigspace.so")])
        if r.returncode:
            raise BuildError(r.stdout[-6000:])
    so = os.path.join(atomic_dir("so-" + digest([hook], cmd), make), "libcconfigspace.so")
    py = os.path.join(VERIF, "harness", "py")
    text = """#!/bin/sh
export LD_PRELOAD=%s LIBCCONFIGSPACE_SO_=%s PYTHONPATH=%s:%s PYTHONMALLOC=%s PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=4:handle_abort=1:handle_sigfpe=1:quarantine_size_mb=16:malloc_context_size=8
export UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=4
exec %s %s "$@"
""" % (asan_runtime(), so, os.path.join(REPO, "bindings/python"), py, cfg.get("pymalloc", "malloc"), cfg.get("interpreter", "/opt/ccs-venv/bin/python"),
       os.path.join(py, cfg.get("python", "")))
    if cfg.get("ruby"):
        rb = os.path.join(VERIF, "harness", "rb")
        text = """#!/bin/sh
export LD_PRELOAD=%s LIBCCONFIGSPACE_SO=%s
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=4:handle_abort=1:handle_segv=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8
export UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=4
exec %s -W0 -I %s -I %s -I %s %s "$@"
""" % (asan_runtime(), so, cfg.get("interpreter", "/usr/bin/ruby"), rb, os.path.join(rb, "shim"), os.path.join(REPO, "bindings/ruby/lib"),
       os.path.join(rb, cfg["ruby"]))

    def launcher(d):
        with open(os.path.join(d, "h"), "w") as f:
            f.write(text)
        os.chmod(os.path.join(d, "h"), 0o755)
    return os.path.join(atomic_dir("p-" + digest([], text), launcher), "h")


def build_harness(cfg):
    if cfg.get("python") or cfg.get("ruby"):
        return build_python(cfg)
    san = cfg.get("san", SAN)
    lib = build_lib(san, cfg.get("defines", ()))
    H = os.path.join(VERIF, "harness")
    hdrs = glob.glob(os.path.join(H, "*.hpp")) + glob.glob(os.path.join(REPO, "include", "**", "*.h"), recursive=True)
    incs = ["-I" + os.path.join(REPO, i) for i in cfg.get("repo_includes", [])]
    for i in cfg.get("repo_files", []):
        hdrs += sorted(f for f in glob.glob(os.path.join(REPO, i, "**", "*"), recursive=True) if os.path.isfile(f))
    wraps = WRAPS + cfg.get("wraps", [])

    def compile_one(src):
        cmd = [CXX, "-std=c++17", "-w"] + BASE + san + cfg.get("cxxflags", []) + incs + ["-I" + H, "-I" + os.path.join(REPO, "include")]

        def make(d):
            r = sh(cmd + ["-c", src, "-o", os.path.join(d, "o.o")])
            if r.returncode:
                raise BuildError(r.stdout[-6000:])
        return os.path.join(atomic_dir("o-" + digest(hdrs + [src], cmd), make), "o.o")
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(compile_one, [os.path.join(H, s) for s in ["mc.cpp"] + cfg["src"]]))
    cmd = [CXX] + BASE + san + objs + [os.path.join(lib, "libccs.a")] + ["-Wl,--wrap=" + w for w in wraps] + \
        cfg.get("ldflags", []) + ["-lgsl", "-lgslcblas", "-lm"]

    def link(d):
        r = sh(cmd + ["-o", os.path.join(d, "h")])
        if r.returncode:
            raise BuildError(r.stdout[-6000:])
    return os.path.join(atomic_dir("h-" + digest([], cmd), link), "h")


SHM_HDR = struct.Struct("=Qiii")
MAXC = 4096


def read_shm(path):
    with open(path, "rb") as f:
        b = f.read()
    prog, suite, n, phase = SHM_HDR.unpack_from(b, 0)
    off = SHM_HDR.size
    c = struct.unpack_from("=%dH" % max(0, min(n, MAXC)), b, off)
    msg = b[off + 2 * MAXC:].split(b"\0", 1)[0].decode("utf8", "replace")
    return prog, suite, n, phase, c, msg


def env():
    e = dict(os.environ)
    e.pop("ASAN_OPTIONS", None)
    e.pop("UBSAN_OPTIONS", None)
    e["LC_ALL"] = "C"
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        e["ASAN_SYMBOLIZER_PATH"] = sym
    return e


def preexec():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def explore(h, tier, workdir, stall, suites, total, mem_mb=6000):
    """run all shards; returns (list of stats, list of candidate violations, list of errors)"""
    procs = []
    for i in range(NSHARDS):
        shm = os.path.join(workdir, "shm%d" % i)
        out = os.path.join(workdir, "out%d.json" % i)
        err = open(os.path.join(workdir, "err%d" % i), "wb")
        cmd = [h, "--shm", shm, "--out", out, "--shard", str(i), "--nshards", str(NSHARDS), "--tier", tier]
        if suites:
            cmd += ["--suite", suites]
        open(shm, "wb").write(b"\0" * (SHM_HDR.size + 2 * MAXC + 4096 + 64))
        p = subprocess.Popen(cmd, stdout=err, stderr=err, stdin=subprocess.DEVNULL, env=env(), preexec_fn=preexec,
                             cwd=workdir, start_new_session=True)
        procs.append(dict(p=p, shm=shm, out=out, err=err.name, last=(-1, -1), t=time.time(), hang=False, done=False))
    cands = []
    start = time.time()
    while True:
        alive = False
        for q in procs:
            if q["done"]:
                continue
            rc = q["p"].poll()
            if rc is None:
                alive = True
                prog, _, n, _, _, _ = read_shm(q["shm"])
                if (prog, 0) != q["last"]:
                    q["last"] = (prog, 0)
                    q["t"] = time.time()
                elif time.time() - q["t"] > stall:
                    q["hang"] = True
                    os.killpg(q["p"].pid, signal.SIGKILL)
                try:
                    with open("/proc/%d/statm" % q["p"].pid) as f:
                        rss = int(f.read().split()[1]) * 4096 >> 20
                    if rss > mem_mb:
                        q["hang"] = True
                        os.killpg(q["p"].pid, signal.SIGKILL)
                except (OSError, ValueError, IndexError):
                    pass
            else:
                q["done"] = True
                q["rc"] = rc
                if rc != 0:
                    _, si, n, phase, c, msg = read_shm(q["shm"])
                    txt = open(q["err"], errors="replace").read()
                    cands.append(dict(suite=si, choices=c, phase=phase, msg=msg, rc=rc, hang=q["hang"], err=txt[-20000:]))
        if cands or not alive:
            break
        if total and time.time() - start > total:
            break
        time.sleep(0.05)
    for q in procs:
        if not q["done"]:
            try:
                os.killpg(q["p"].pid, signal.SIGKILL)
            except OSError:
                pass
            q["p"].wait()
    stats = []
    complete = all(q["done"] and q.get("rc") == 0 for q in procs)
    if complete:
        stats = [json.load(open(q["out"])) for q in procs]
    return stats, cands, complete


def replay(h, tier, spec, timeout):
    """(violates, text)"""
    p = subprocess.Popen([h, "--replay", spec, "--tier", tier, "-v"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, env=env(), preexec_fn=preexec, start_new_session=True, cwd=os.path.dirname(h))
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return True, o.decode("utf8", "replace")[-4000:] + "\nhang: no end after %ds" % timeout
    t = o.decode("utf8", "replace")
    if p.returncode == 9:
        return None, t
    return p.returncode != 0, t


def suite_names(h):
    return sh([h, "--list"], env=env()).stdout.split()


def violation(pid, text, spec, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s.txt" % (pid, hashlib.sha256((spec + text[:200]).encode()).hexdigest()[:10]))
    with open(f, "w") as fd:
        fd.write("property=%s\ntier=%s\nspec=%s\nreproduce: python3 %s/run.py %s --replay %s\n\n%s\n" % (
            pid, tier, spec, VERIF, pid, f, text))
    log("VIOLATION property=%s replay=%s" % (pid, f))


def evidence(pid, cfg, tier, stats, wall, nviol, complete, extra=None):
    agg = {}
    for s in stats:
        for x in s["suites"]:
            a = agg.setdefault(x["name"], dict(executions=0, states=0, transitions=0, outcomes=0, nontrivial=0,
                                               max_choices=0, samples=[]))
            for k in ("executions", "states", "transitions", "outcomes", "nontrivial"):
                a[k] += x[k]
            a["max_choices"] = max(a["max_choices"], x["max_choices"])
            if len(a["samples"]) < 2 and x["executions"]:
                a["samples"].append(x["sample"])
    tot = lambda k: sum(a[k] for a in agg.values())  # noqa: E731
    cov = dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("executions"),
               evaluations=tot("executions"), distinct_nontrivial=tot("outcomes"),
               rule=("every choice sequence (operations, arguments, random draws, faults) within the bounds is executed once on "
                     "the real code; states are choice-tree nodes, transitions library calls, distinct_nontrivial counts "
                     "executions with pairwise different observed outcome hashes per worker. " + cfg.get("rule", "")),
               samples=[s for a in agg.values() for s in a["samples"]][:12],
               exhaustive=bool(complete), suites={k: {x: v for x, v in a.items() if x != "samples"} for k, a in agg.items()},
               bounds=cfg.get("bounds", ""))
    if extra:
        cov.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=cfg.get("level", "model_checking"),
              coverage=cov, assumptions=cfg.get("assumptions", [
                  "clang AddressSanitizer/UndefinedBehaviorSanitizer builds of /repo/src behave as the normal build",
                  "the alphabets and bounds of the harness (see DESIGN.md)"]),
              wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def known(pid):
    """lines "known: property=<id> <suite:choices> <what fails>" of the committed known-findings file"""
    r = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) (\S+) (.*)", l)
        if m and m.group(1) == pid:
            r.append(dict(spec=m.group(2), what=m.group(3)))
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    suite = sys.argv[sys.argv.index("--suite") + 1] if "--suite" in sys.argv else None
    cfg = CHECKS[pid]
    t0 = time.time()
    if cfg.get("script"):  # property decided by its own driver
        import importlib
        m = importlib.import_module(cfg["script"])
        return m.run(pid, cfg, tier, sys.modules[__name__])
    try:
        h = build_harness(cfg)
    except BuildError as e:
        log("build failed:\n" + str(e))
        return 2
    if "--replay" in sys.argv:
        t = open(sys.argv[sys.argv.index("--replay") + 1]).read()
        spec = re.search(r"^spec=(.*)$", t, re.M).group(1)
        rt = re.search(r"^tier=(.*)$", t, re.M).group(1)
        v, o = replay(h, rt, spec, 120)
        log(o)
        return 1 if v else 0
    log("build %.1fs" % (time.time() - t0))
    rc = 0
    for attempt in range(2):
        wd = tempfile.mkdtemp(prefix="mc-%s-" % pid)
        os.environ["MC_SCRATCH"] = wd
        try:
            stats, cands, complete = explore(h, tier, wd, cfg.get("stall", 60), suite, cfg.get("total", 0))
        finally:
            os.environ.pop("MC_SCRATCH")
            shutil.rmtree(wd, ignore_errors=True)
        if not cands:
            break
        names = suite_names(h)
        reported = 0
        for c in cands[:3]:
            spec = "%s:%s" % (names[c["suite"]], ",".join(map(str, c["choices"])))
            v, o = replay(h, tier, spec, 180 if c["hang"] else 120)
            if v is None and c["phase"] != 2:
                log("harness error:", o[-1500:])
                continue
            if v:
                violation(pid, (c["msg"] or ("hang" if c["hang"] else "crash, status %d" % c["rc"])) + "\n\n" + o[-12000:], spec, tier)
                log((c["msg"] or "crash/hang") + "\n" + "\n".join(re.findall(r"^(?:.*ERROR: .*|.*runtime error.*|    #[0-6] .*)$", o, re.M)[:10]))
                reported += 1
                break
            log("candidate not confirmed in isolation: %s %s\n%s" % (spec, c["msg"], c["err"][-3000:]))
            if attempt == 1:
                # fails twice in the same deterministic run but not alone: state carried over between executions
                violation(pid, "fails in the deterministic full run only\n" + c["msg"] + "\n" + c["err"][-8000:], spec, tier)
                reported += 1
                break
        if reported:
            rc = 1
            evidence(pid, cfg, tier, [], time.time() - t0, reported, False)
            return rc
    if not complete:
        log("run did not complete")
        return 2
    evidence(pid, cfg, tier, stats, time.time() - t0, 0, True)
    for k in known(pid):
        log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    n = sum(x["executions"] for s in stats for x in s["suites"])
    tr = sum(x["transitions"] for s in stats for x in s["suites"])
    per = {}
    for s in stats:
        for x in s["suites"]:
            y = per.setdefault(x["name"], [0, 0])
            y[0] += x["executions"]
            y[1] += x["outcomes"]
    for k, v in per.items():
        log("  %-28s executions=%d outcomes=%d" % (k, v[0], v[1]))
    log("property=%s held: %d executions, %d transitions, %.1fs" % (pid, n, tr, time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
