"""Builds the real code of /repo's working tree, with the drivers of harness/, in several configurations.

Builds live in build/<config>-<hash of the sources, flags and harness>/ (ignored by git), so a check that runs on an
unchanged tree reuses them, and any change to a source file of /repo gives another build.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
STUB = os.path.join(HARNESS, "stub")
COMMON = ["-std=gnu++20", "-DFMT_CONSTEVAL=", "-w", "-fPIC"]
INC = ["-I" + REPO, "-I" + REPO + "/Narsese", "-I" + REPO + "/Narsese/Parser", "-I" + REPO + "/Interpreter", "-I" + REPO + "/utils"]
SAN = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]

# name: (compiler, flags for the code of /repo, flags for the harness)
CONFIGS = {
    "asan": ("clang++", ["-O1"] + SAN, ["-O0"] + SAN),
    "g2": ("g++", ["-O2", "-g1"], ["-O0"]),
    "g3": ("g++", ["-O3", "-DNDEBUG"], ["-O0", "-DNDEBUG"]),
    "g0": ("g++", ["-O0"], ["-O0"]),
    "c0": ("clang++", ["-O0"], ["-O0"]),
    "c3": ("clang++", ["-O3"], ["-O0"]),
    "cpat": ("clang++", ["-O2", "-ftrivial-auto-var-init=pattern"], ["-O0"]),
    "czero": ("clang++", ["-O1", "-ftrivial-auto-var-init=zero"], ["-O0"]),
    "gchar": ("g++", ["-O1", "-funsigned-char", "-fwrapv"], ["-O0", "-funsigned-char"]),
}


class BuildError(Exception):
    pass


def sources():
    out = []
    for d in ("Narsese/src", "Narsese/Parser", "Interpreter/src", "utils"): out += sorted(glob.glob("%s/%s/*.cpp" % (REPO, d)))
    return out + [f for f in (REPO + "/Config.cpp", REPO + "/Global.cpp") if os.path.exists(f)]


def source_hash():
    h = hashlib.sha256()
    for root in ("Narsese", "Interpreter", "utils", "NAL"):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if os.path.islink(p) and not os.path.exists(p): continue
                h.update(os.path.relpath(p, REPO).encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in sorted(glob.glob(REPO + "/*.[ch]*")):
        if os.path.isfile(p): h.update(os.path.basename(p).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h


def _key(*extra):
    h = source_hash()
    for dp, dn, fn in sorted(os.walk(HARNESS)):
        dn.sort()
        for f in sorted(fn): h.update(f.encode() + open(os.path.join(dp, f), "rb").read())
    h.update(repr((COMMON, INC, extra)).encode())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=OUT)
    return p.returncode, p.stdout.decode(errors="replace")


def _prune(prefix, keep):
    """Drop builds of other trees, oldest first."""
    olds = [d for d in glob.glob(os.path.join(OUT, prefix + "-*")) if os.path.isdir(d) and d != keep and ".tmp" not in d]
    olds.sort(key=os.path.getmtime)
    for d in olds[:-2]: shutil.rmtree(d, ignore_errors=True)


def _build(name, key, jobs, link, target):
    """jobs: [(object, command)], link: command; both with {d} for the build directory. Returns the target's path."""
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(OUT, "%s-%s" % (name, key))
    path = os.path.join(d, target)
    with open(os.path.join(OUT, ".lock-" + name), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(path): os.utime(d); return path
        tmp = d + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        try:
            sub = lambda c: [x.replace("{d}", tmp) for x in c]
            with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                for rc, log in ex.map(lambda c: _run(sub(c)), jobs):
                    if rc: raise BuildError("%s: %s" % (name, log[-3000:]))
            rc, log = _run(sub(link))
            if rc: raise BuildError("%s: link: %s" % (name, log[-3000:]))
            for o in glob.glob(tmp + "/*.o"): os.remove(o)
            shutil.rmtree(d, ignore_errors=True)
            os.rename(tmp, d)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        _prune(name, d)
    return path


def driver(name):
    """The script driver in one of CONFIGS."""
    cxx, flags, hflags = CONFIGS[name]
    extra, libs, what = ["-I" + STUB], ["-lfmt"], [STUB]
    for attempt in (0, 1):
        if attempt:  # a tree whose library sources use more of pybind11 than the stand-in offers
            import sysconfig
            extra = ["-I" + sysconfig.get_paths()["include"], "-I/usr/include/python3.12"] + _pybind_inc()
            libs = ["-lfmt", "-lpython3.12"]
        jobs = []
        for n, s in enumerate(sorted(glob.glob(HARNESS + "/*.cpp"), key=lambda f: "driver" not in f)):
            f = flags if os.path.basename(s) == "functions.cpp" else hflags
            jobs.append([cxx] + COMMON + f + extra + INC + ["-c", s, "-o", "{d}/h%d.o" % n])
        for n, s in enumerate(sources()): jobs.append([cxx] + COMMON + flags + extra + INC + ["-c", s, "-o", "{d}/r%d.o" % n])
        link = [cxx] + flags + ["{d}/%s" % j[-1].split("/")[-1] for j in jobs] + ["-o", "{d}/driver"] + libs
        try: return _build(name, _key(name, cxx, flags, hflags, attempt), jobs, link, "driver")
        except BuildError:
            if attempt: raise


def locales(names):
    """Compiles locales of the C library's sources; returns the directory for LOCPATH and those that could be compiled."""
    d = os.path.join(OUT, "locale")
    os.makedirs(d, exist_ok=True)
    got = []
    with open(os.path.join(OUT, ".lock-locale"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for n in names:
            t = os.path.join(d, n)
            if not os.path.isdir(t):
                lang, charset = n.split(".")
                try: subprocess.run(["localedef", "--no-archive", "-c", "-i", lang, "-f", charset, t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                except (OSError, subprocess.TimeoutExpired): pass
            if os.path.exists(os.path.join(t, "LC_NUMERIC")): got.append(n)
    return d, got


def _pybind_inc():
    out = []
    for g in ("/usr/include/pybind11", "/usr/lib/python3/dist-packages/pybind11/include", REPO + "/pybind11/include", "/opt/vp/pybind11/include"):
        if os.path.isdir(g): out.append("-I" + (os.path.dirname(g) if g.endswith("/pybind11") else g))
    return out


def module(san=False):
    """The real Python module narsese, with the real pybind11; returns the directory that holds it."""
    import sysconfig
    name = "pymod-asan" if san else "pymod"
    cxx = "g++"
    flags = ["-O0", "-fvisibility=hidden"] + (["-g1", "-fsanitize=address"] if san else [])
    inc = ["-I/usr/include/python3.12"] + _pybind_inc()
    srcs = [REPO + "/Narsese.cpp"] + sources()
    jobs = [[cxx] + COMMON + flags + inc + INC + ["-Dnarsese_EXPORTS", "-c", s, "-o", "{d}/r%d.o" % n] for n, s in enumerate(srcs)]
    suffix = sysconfig.get_config_var("EXT_SUFFIX") or ".so"
    tgt = "narsese" + suffix
    link = [cxx] + flags + ["-shared"] + ["{d}/r%d.o" % n for n in range(len(srcs))] + ["-o", "{d}/" + tgt, "-lfmt"]
    return os.path.dirname(_build(name, _key(name, flags), jobs, link, tgt))


def drivers(names):
    """Several configurations, at the same time."""
    with cf.ThreadPoolExecutor(max_workers=4) as ex: return dict(zip(names, ex.map(driver, names)))


if __name__ == "__main__":
    for n in sys.argv[1:] or list(CONFIGS):
        t = time.time()
        print(n, module() if n == "pymod" else module(True) if n == "pymod-asan" else driver(n), "%.1fs" % (time.time() - t))
