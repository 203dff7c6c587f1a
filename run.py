#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py setup                      compile the library and every check
  run.py check C01 [--tier T]       build what the check needs from /repo's working tree, run it
  run.py replay C01 FILE            re-run a replay file
  run.py build C01                  build only

Objects are cached in /verif/build under the hash of every file that went into them (source, all headers it
includes, flags), so a changed tree is always recompiled and an unchanged one never is.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
CXX = "clang++"
BASE = ["-std=c++17", "-DNDEBUG", "-g1", "-fno-omit-frame-pointer", "-Wno-everything",
        "-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "third_party"), "-I", HARNESS]
ASAN = ["-fsanitize=address", "-include", os.path.join(HARNESS, "shim.h")]
_hash = {}


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h


def obj(src, flags):
    """Compiles one source, or returns the cached object for exactly these inputs."""
    key = hashlib.sha256("\0".join([src] + flags).encode()).hexdigest()[:20]
    man = os.path.join(BUILD, "man", key)
    entries = []
    if os.path.exists(man):
        try:
            entries = json.load(open(man))
        except ValueError:
            entries = []
    for e in entries:
        if os.path.exists(e["obj"]) and all(fhash(d) == h for d, h in e["deps"]):
            os.utime(e["obj"])
            return e["obj"], None
    tmp = os.path.join(BUILD, "obj", f"{key}.{os.getpid()}.tmp.o")
    dep = tmp + ".d"
    r = subprocess.run([CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        return None, f"compiling {src} failed:\n{r.stderr[:6000]}"
    text = open(dep).read().replace("\\\n", " ")
    os.unlink(dep)
    deps = sorted({os.path.realpath(d) for d in text.split(":", 1)[1].split()
                   if not d.startswith("/usr/")} | {os.path.realpath(src)})
    dh = [[d, fhash(d)] for d in deps]
    final = os.path.join(BUILD, "obj", hashlib.sha256((key + json.dumps(dh)).encode()).hexdigest()[:24] + ".o")
    os.replace(tmp, final)
    entries = [e for e in entries if os.path.exists(e["obj"])][-12:]
    entries.append({"deps": dh, "obj": final})
    with open(man + f".{os.getpid()}", "w") as f:
        json.dump(entries, f)
    os.replace(man + f".{os.getpid()}", man)
    return final, None


def lib_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        if "/Distributed" in root:
            continue
        out += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    return sorted(out)


def dist_sources():
    """The distributed sources that do not need the CUDA/NCCL toolchains."""
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src", "Distributed")):
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(".cpp") and "NCCL" not in f and f != "DistributedProcessGroup.cpp":
                out.append(p)
    return out


# Per check: which library parts it links, and extra flags.
SPEC = {}
DEFAULT = {"lib": True, "dist": False, "flags": ["-O1"], "lflags": []}
SPEC["C12"] = {"libflags": []}
SPEC["C22"] = {"lib": False, "libfiles": ["Utils/Logger.cpp"]}
SPEC["C19"] = {"lib": False, "libfiles": ["Utils/Logger.cpp", "Utils/Timer.cpp"], "distfiles": ["Store", "FileStore", "TCPStore"],
               "san": ["-fsanitize=thread"]}
SPEC["C15"] = {"maxalloc": 64}
SPEC["C21"] = {"maxalloc": 256}
SPEC["C20"] = {"dist": True}
SPEC["C27"] = {"simfiles": ["Store", "FileStore", "TCPStore", "ProcessGroup", "WorkNCCL", "BackendNCCL", "DistributedProcessGroup"],
               "flags": ["-O1", "-I" + os.path.join(HARNESS, "stub", "sim")]}
SPEC["C26"] = {"distfiles": ["Store", "FileStore", "TCPStore"]}


def spec(c):
    s = dict(DEFAULT)
    s.update(SPEC.get(c, {}))
    return s


def jobs_for(c):
    s = spec(c)
    jobs = []
    san = s.get("san", ASAN)
    lf = BASE + san + s.get("libflags", []) + ["-fno-exceptions"]
    # the element-wise translation unit is huge: without optimisation it compiles three times faster
    def add(p):
        opt = ["-O0"] if p.endswith("OpElemWiseCpu.cpp") else ["-O1"]
        jobs.append((p, lf + opt))
    if s["lib"]:
        for p in lib_sources():
            add(p)
    for p in s.get("libfiles", []):
        q = os.path.join(REPO, "src", p)
        if os.path.exists(q):
            add(q)
    if s["dist"]:
        for p in dist_sources():
            jobs.append((p, lf + ["-O1", "-include", os.path.join(HARNESS, "stub", "nocuda.h")]))
    for n in s.get("distfiles", []):
        q = os.path.join(REPO, "src", "Distributed", n + ".cpp")
        if os.path.exists(q):
            add(q)
    for n in s.get("simfiles", []):  # over the simulated devices; malformed numbers may throw
        q = os.path.join(REPO, "src", "Distributed", n + ".cpp")
        sd = os.path.join(HARNESS, "stub", "sim")
        if os.path.exists(q):
            jobs.append((q, BASE + san + ["-O1", "-I" + sd, "-include", os.path.join(sd, "simcuda.h")]))
    for p in sorted(glob.glob(os.path.join(HARNESS, f"{c}*.cpp"))):
        jobs.append((p, BASE + san + s["flags"]))
    return jobs


def compile_all(jobs):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "man"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    # longest first
    jobs = sorted(jobs, key=lambda j: -({"Oper": 5, "Tens": 3}.get(os.path.basename(os.path.dirname(j[0]))[:4], 0) * 1000000
                                        + os.path.getsize(j[0])) - (10 ** 9 if "OpElemWiseCpu" in j[0] or HARNESS in j[0] else 0))
    out = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {ex.submit(obj, s, f): (s, tuple(f)) for s, f in jobs}
        for fu in concurrent.futures.as_completed(futs):
            o, err = fu.result()
            if err:
                print(err, file=sys.stderr)
                sys.exit(2)
            out[futs[fu]] = o
    return out


def link(c, objs):
    s = spec(c)
    key = hashlib.sha256("\0".join(sorted(objs)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bin", f"{c}-{key}")
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    tmp = exe + f".{os.getpid()}"
    san = [f for f in s.get("san", ASAN) if f.startswith("-fsanitize")]
    r = subprocess.run([CXX] + san + ["-fuse-ld=lld"] * 0 + objs + ["-o", tmp, "-lpthread"] + s["lflags"], capture_output=True, text=True)
    if r.returncode != 0:
        print(f"linking {c} failed:\n{r.stderr[:4000]}", file=sys.stderr)
        sys.exit(2)
    os.replace(tmp, exe)
    return exe


def prune(limit=3 << 30):
    """Keeps the cache bounded: least recently used files go first."""
    fs = []
    for d in ("obj", "bin"):
        for p in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    total = sum(s for _, s, _ in fs)
    for m, s, p in sorted(fs):
        if total <= limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= s


def build(c):
    jobs = jobs_for(c)
    out = compile_all(jobs)
    exe = link(c, [out[(s, tuple(f))] for s, f in jobs])
    prune()
    return exe


def all_checks():
    return sorted({os.path.basename(p)[:3] for p in glob.glob(os.path.join(HARNESS, "C[0-9][0-9]*.cpp"))})


def env(c):
    e = dict(os.environ)
    cap = spec(c).get("maxalloc", 3000)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=%d:" % cap +
                         "malloc_fill_byte=190:max_malloc_fill_size=1048576:detect_stack_use_after_return=0:"
                         "handle_sigtrap=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=4:"
                         "quarantine_size_mb=16")
    e["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:die_after_fork=0:report_signal_unsafe=0:handle_abort=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    return e


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        t = time.time()
        cs = all_checks()
        jobs = {}
        for c in cs:
            for s, f in jobs_for(c):
                jobs[(s, tuple(f))] = (s, f)
        out = compile_all(list(jobs.values()))
        for c in cs:
            link(c, [out[(s, tuple(f))] for s, f in jobs_for(c)])
        print(f"built {len(cs)} checks in {time.time() - t:.0f}s")
        return 0
    c = a[1]
    if a[0] == "build":
        print(build(c))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = a[2:]
    if "--tier" in rest:
        i = rest.index("--tier")
        tier = rest[i + 1]
        del rest[i:i + 2]
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        int(seed)
    except ValueError:
        seed = "1"
    t = time.time()
    exe = build(c)
    print(f"build {time.time() - t:.0f}s", flush=True)
    rep = os.path.join(VERIF, "replays")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if a[0] == "replay":
        return subprocess.call([exe, "--replay-dir", rep, "--replay", rest[0]], env=env(c), cwd=VERIF)
    cmd = [exe, "--tier", tier, "--seed", seed, "--replay-dir", rep,
           "--evidence", os.path.join(VERIF, "evidence", f"{c}.json"),
           "--known", os.path.join(VERIF, "known_findings.txt")] + rest
    return subprocess.call(cmd, env=env(c), cwd=VERIF)


if __name__ == "__main__":
    sys.exit(main())
