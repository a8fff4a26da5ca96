#!/usr/bin/env python3
"""Mutation campaign, for developing the checks: mutate.py N SEED [file pattern]. Works on copies of /repo under /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, time, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["Narsese/include/Term.inl", "Narsese/include/Term.h", "Narsese/src/Compound.cpp", "Narsese/include/Compound.h", "Narsese/include/Compound.inl", "Narsese/include/Statement.h", "Narsese/include/Statement.inl",
         "Narsese/include/Variable.h", "Narsese/include/Variable.inl", "Narsese/include/Connector.h", "Narsese/include/Copula.h", "Narsese/include/Evidence.h", "Narsese/include/Sentence.h", "Narsese/include/Interval.h",
         "Narsese/include/Truth.h", "Narsese/include/Budget.h", "Narsese/include/Operation.h", "Narsese/src/Term.cpp", "Narsese/Parser/NarseseParser.cpp", "Narsese/Parser/NarseseParser.h", "Narsese/Parser/Parser.cpp", "Narsese/Parser/Parser.h",
         "Narsese/Parser/narsese.cpp", "Interpreter/include/Interpreter.hpp", "Interpreter/src/Interpreter.cpp", "utils/IndexVar.h", "utils/IndexVar.cpp", "utils/hash.h", "Global.h",
         "NAL/Functions/include/TruthFunctions.h", "NAL/Functions/include/TemporalFunctions.h", "NAL/Functions/include/UncertaintyMappingFunctions.h", "NAL/Functions/include/ExtendedBooleanFunction.h", "NAL/Functions/src/UncertaintyMappingFunctions.cpp"]
ORDER = {"NAL": ["C17"], "Evidence": ["C16", "C15"], "Sentence": ["C15", "C14"], "Interpreter": ["C07", "C08", "C05"], "IndexVar": ["C12", "C13"], "Parser": ["C03", "C14", "C04", "C01", "C02"], "narsese.cpp": ["C03", "C01", "C21"],
         "Compound.cpp": ["C06"], "Connector": ["C19", "C06"], "Copula": ["C19"], "hash": ["C10", "C09"], "Term": ["C09", "C05", "C13"], "Statement": ["C11", "C13"], "Compound": ["C11", "C13"], "Truth": ["C17", "C14"], "Budget": ["C14"], "Variable": ["C12", "C13"]}
ALL = ["C03", "C06", "C11", "C12", "C13", "C05", "C10", "C09", "C15", "C16", "C17", "C14", "C07", "C08", "C02", "C04", "C01", "C19", "C21", "C20"]
SWAPS = [("ivar", "dvar"), ("dvar", "qvar"), ("qvar", "ivar"), ("independent", "dependent"), ("subject", "predicate"), ("begin()", "end()"), ("is_input", "!is_input"), ("w_p", "w"), ("truth1", "truth2"), ("term1", "term2"), ("push_back", "assign_"), ("f1", "f2"), ("_question", "_quest"), ("_goal", "_judgement"), ("args[0]", "args[1]"), ("args[1]", "args[2]"), ("ExtensionalSet", "IntensionalSet"), ("union_", "intersection"), ("intersection", "difference")]


def candidates():
    out = []
    for f in FILES:
        raw = open("/repo/" + f, newline="").read()
        lines = raw.split("\n")
        incomment = False
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*"): incomment = True
            if incomment:
                if "*/" in s: incomment = False
                continue
            if not s or s.startswith(("//", "#", "using", "namespace", "typedef", "extern", "class", "public", "private", "fprintf", "auto color_", ".", "regist", "template")) or "pybind" in s or "py::" in s or "UNICC_DEBUG" in s: continue
            code = l.split("//")[0]
            def put(new): out.append((f, n, new + l[len(code):]))
            for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" * ", " + "), (" += ", " = "), ("true", "false"), ("false", "true"), ("++", "--"), ("!this->", "this->"), ("return false", "return true")):
                i = code.find(a)
                while i >= 0:
                    put(code[:i] + b + code[i + len(a):]); i = code.find(a, i + 1)
            for m in re.finditer(r"(?<![\w.])\d+(?:\.\d+)?(?![\w.])", code):
                put(code[:m.start()] + str((float if "." in m.group() else int)(m.group()) + 1) + code[m.end():])
            for a, b in SWAPS:
                i = code.find(a)
                if i >= 0: put(code[:i] + b + code[i + len(a):])
            if re.search(r";\s*$", code) and not re.match(r"\s*(auto|const|int|size_t|float|double|void|std::|string|bool|return|_tok|pTerm|break|static)\b", code): put(re.match(r"\s*", code).group() + ";" + ("\r" if l.endswith("\r") and not code.endswith("\r") else ""))
    return out


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    pat = sys.argv[3] if len(sys.argv) > 3 else ""
    r = random.Random(seed)
    cs = [c for c in candidates() if re.search(pat, c[0])]
    byfile = {}
    for c in cs: byfile.setdefault(c[0], []).append(c)
    picked = []
    while len(picked) < n and byfile:  # files evenly by the square root of their number of candidates
        f = r.choices(list(byfile), [len(v) ** 0.5 for v in byfile.values()])[0]
        c = byfile[f].pop(r.randrange(len(byfile[f])))
        if not byfile[f]: del byfile[f]
        picked.append(c)
    print("%d candidates" % len(cs), flush=True)
    # the machinery as it is now, so that it can be edited meanwhile
    base = "/tmp/mut/verif"
    if not os.path.exists(base): shutil.copytree(V, base, ignore=shutil.ignore_patterns("build", ".git", "evidence"))
    os.makedirs(base + "/evidence", exist_ok=True)
    for k, (f, ln, new) in enumerate(picked):
        root = "/tmp/mut/repo"
        shutil.rmtree(root, ignore_errors=True); shutil.copytree("/repo", root, ignore=shutil.ignore_patterns("_build", ".git"), symlinks=True)
        lines = open("/repo/" + f, newline="").read().split("\n")
        old = lines[ln]
        lines[ln] = new
        open(root + "/" + f, "w", newline="").write("\n".join(lines))
        env = dict(os.environ, VERIF_REPO=root, VERIF_BUILD="/tmp/mut/build", VERIF_SEED="1", VERIF_TIER="quick")
        shutil.rmtree("/tmp/mut/build", ignore_errors=True)
        b = subprocess.run([sys.executable, "-m", "vlib.build", "asan"], cwd=base, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        desc = "%s:%d  %s  ->  %s" % (f, ln + 1, old.strip(), new.strip())
        if b.returncode: print("--", "no build", desc, flush=True); continue
        first = next((v for p, v in ORDER.items() if p in f), [])
        t0, hit, odd = time.time(), None, ""
        for c in first + [x for x in ALL if x not in first]:
            try: p = subprocess.run([sys.executable, "checks/run.py", c, "quick"], cwd=base, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired: odd += " %s:timeout" % c; continue
            if p.returncode == 1 and "VIOLATION property=" in p.stdout: hit = c; break
            if p.returncode: odd += " %s:exit %d %s" % (c, p.returncode, p.stdout[-150:].replace("\n", " "))
        print("%s %s %d s %s%s" % ("KILLED" if hit else "SURVIVED", hit or "", time.time() - t0, desc, odd), flush=True)
    shutil.rmtree("/tmp/mut", ignore_errors=True)


main()
