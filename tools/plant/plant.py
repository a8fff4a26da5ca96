#!/usr/bin/env python3
"""Makes and confirms planted bugs: plant.py ID... reads bugs.py (ID -> dict), writes seeded/ID/, confirms it, runs its check.

Only for developing the checks; nothing here is used by them. Works on a copy of /repo in /tmp/plant."""
import importlib.util, json, os, shutil, subprocess, sys, time
V = "/verif"
R = "/tmp/plant/repo"  # a copy of /repo, built there
W = "/tmp/plant"
here = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("bugs", here + "/bugs.py"); bugs = importlib.util.module_from_spec(spec); spec.loader.exec_module(bugs)

def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def restore(): sh("git -C %s checkout -- ." % R)

def setup():
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", W + "/build.sh").replace("/repo", R)
        open("%s/%s" % (W, n), "w").write(t)

def make(bid):
    b = bugs.BUGS[bid]
    d = "%s/seeded/%s" % (V, bid)
    os.makedirs(d, exist_ok=True)
    restore()
    for f, old, new in b["edits"]:
        raw = open(R + "/" + f, newline="").read()
        crlf = "\r\n" in raw
        t = raw.replace("\r\n", "\n")
        assert t.count(old) == 1, (bid, f, t.count(old), old)
        t = t.replace(old, new)
        open(R + "/" + f, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
        base = subprocess.run(["git", "-C", R, "blame", "-s", "-l", "HEAD", "--", f], stdout=subprocess.PIPE, text=True, errors="replace").stdout.split("\n")
        first = subprocess.run(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
        for h in subprocess.run(["git", "-C", R, "diff", "-U0", "--", f], stdout=subprocess.PIPE, text=True, errors="replace").stdout.split("\n"):
            if h.startswith("@@"):
                a = h.split()[1][1:].split(","); n = int(a[1]) if len(a) > 1 else 1
                if n == 0: print(bid, "NOTE: only adds lines in", f)
                for i in range(int(a[0]), int(a[0]) + n):
                    if first[:39] not in base[i - 1]: print(bid, "NOTE: changes a line of a fix:", base[i - 1][41:])
    diff = subprocess.run(["git", "-C", R, "diff", "--binary"], stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    restore()
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "py" in b:
        open(d + "/demo.py", "w").write("import sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, '_build')\n" + b["py"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec %spython3 "$(dirname "$0")/demo.py"\n' % b.get("env", ""))
    else:
        open(d + "/demo.cpp", "w").write(b["cpp"].lstrip("\n"))
        shutil.copy(here + "/cxx.py", d + "/cxx.py")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B -c "import sys; sys.path.insert(0, sys.argv[1]); import cxx; sys.exit(cxx.main(%s))" "$(cd "$(dirname "$0")" && pwd)"\n' % b.get("args", ""))

def build(): return sh("bash %s/build.sh" % W)

def confirm(bid, checks=True):
    b = bugs.BUGS[bid]; d = "%s/seeded/%s" % (V, bid)
    out = {}
    try:
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        if r.returncode: return "patch does not apply: " + r.stdout
        r = build()
        if r.returncode: return "build fails: " + r.stdout[-800:]
        r = sh("bash %s/test.sh %s/out.json" % (W, W))
        t = json.load(open(W + "/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("passed") or base.get("stable") or base
        bad = [x for x in stable if x not in t["passed"]]
        if bad: return "tests fail: %s" % bad
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        out["demo with"] = r.returncode
        dw = r.stdout[-300:]
        if checks:
            t0 = time.time()
            p = [b["property"]] + [x for x in b.get("also", [])]
            for x in p:
                r = sh("python3 checks/run.py %s quick" % x, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=R, VERIF_BUILD=W + "/checks"))
                out[x] = (r.returncode, [l for l in r.stdout.split("\n") if l.startswith("  [")][:1] or r.stdout[-200:], round(time.time() - t0))
    finally:
        restore()
    build()
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    out["demo without"] = r.returncode
    ok = out["demo with"] != 0 and r.returncode == 0
    return ("OK " if ok else "BAD DEMO ") + str(out)[:600] + ("" if ok else dw + r.stdout[-500:])

if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    setup()
    for bid in ids or list(bugs.BUGS):
        make(bid)
        print(bid, confirm(bid, "--nocheck" not in sys.argv), flush=True)
