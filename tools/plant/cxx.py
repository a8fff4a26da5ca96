"""Compiles demo.cpp (beside this file) with the code built in the current directory and runs it; returns its exit code."""
import concurrent.futures as cf, glob, os, subprocess, sys, sysconfig, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def main(san=False, env=None, flags=()):
    root = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        exe = os.path.join(d, "demo")
        inc = ["-I" + root, "-I" + os.path.join(root, "pybind11/include"), "-I" + sysconfig.get_paths()["include"]]
        common = ["-std=gnu++20", "-w", "-fPIC", "-fvisibility=hidden", "-DFMT_CONSTEVAL=", "-DFMT_SHARED", *flags]
        demo = os.path.join(HERE, "demo.cpp")
        libs = ["-lfmt", "-lpython%d.%d" % sys.version_info[:2]]
        if not san:
            objs = [o for o in glob.glob(root + "/_build/CMakeFiles/main.dir/**/*.o", recursive=True) if not o.endswith("/main.cpp.o")]
            subprocess.run(["g++", "-O1", "-flto", *common, *inc, demo, *objs, "-o", exe, *libs], check=True, stderr=subprocess.DEVNULL)
        else:
            srcs = [demo] + [s for p in ("Narsese/src", "Narsese/Parser", "Interpreter/src", "utils") for s in glob.glob("%s/%s/*.cpp" % (root, p))] + [root + "/Config.cpp", root + "/Global.cpp"]
            san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-g1", "-O1"]

            def one(n):
                subprocess.run(["g++", *san, *common, *inc, "-c", srcs[n], "-o", "%s/%d.o" % (d, n)], check=True)
                return "%s/%d.o" % (d, n)
            with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, range(len(srcs))))
            subprocess.run(["g++", *san, *objs, "-o", exe, *libs], check=True)
        p = subprocess.run([exe], timeout=200, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", **(env or {})))
        return 0 if p.returncode == 0 else 1
