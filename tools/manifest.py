#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks present in checks/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "AddressSanitizer+UBSan over generated, mutated and hostile texts; crash/exception/hang monitor",
 "C02": "allocation accounting (hooked operator new/delete, live-object counts) and LeakSanitizer around repeated parses",
 "C03": "differential trace oracle: independent reference parser of the documented grammar against recorded parse results",
 "C04": "differential trace oracle: the same text in a fresh process against the same text after hostile histories",
 "C05": "online model of the atom registry checked against recorded registry contents and use counts over random histories",
 "C06": "model oracle (independent normal-form rules) over recorded structures of randomly built compounds",
 "C07": "round-trip oracle over recorded print/parse/print traces",
 "C08": "trace oracle: coloured output minus colour codes equals the plain output, over recorded outputs",
 "C09": "recorded comparison matrices checked against structural equality and strict-weak-order axioms",
 "C10": "hash monitor: recorded and recomputed hashes compared over equal, distinct and changed terms",
 "C11": "model oracle recomputing every derived attribute from the recorded structure",
 "C12": "model oracle over recorded variable tables (identity, positions, numbering), including renumbering through pointers",
 "C13": "before/after trace comparison of originals and clones under mutation, with AddressSanitizer",
 "C14": "model oracle over recorded truth, desire and budget values under varied configured defaults",
 "C15": "model oracle over recorded stamps, clocks and evidence ids across histories",
 "C16": "model oracle of evidential bases over random histories of merges, with AddressSanitizer",
 "C17": "numeric oracle (double precision reference, laws) over recorded results of truth functions",
 "C18": "differential oracle between the real Python module and the model, with crash, exception and lifetime monitors in watched subprocesses",
 "C19": "recorded symbol tables checked against the Narsese definition and against recorded parse/print behaviour",
 "C20": "differential oracle over recorded traces of the same operations in several builds, compilers, memory fills and address layouts",
 "C21": "scaled workloads under sanitizers, recorded results compared with a size-parametric model",
 "C22": "trace oracle over captured standard error and output of each parse: place of the report against the reference parser's point of failure",
}
NOTE = {}
for ln in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(ln); NOTE[d["id"]] = d["title"]
checks = []
have = {re.search(r"c\d+", os.path.basename(f)).group().upper() for f in glob.glob(V + "/checks/c*.py")}
for p in sorted(NOTE):
    if p not in have: continue
    checks.append({"property": p, "quick_cmd": "python3 checks/run.py %s quick" % p, "thorough_cmd": "python3 checks/run.py %s thorough" % p,
                   "technique": "runtime monitoring: " + TECH[p], "level": "exploration",
                   "level_note": "Holds on every execution observed (counts in the evidence file); nothing is claimed about inputs that were not run. Trusts the drivers and models in /verif and the compilers' sanitizers; assumptions are listed in the evidence file and DESIGN.md."})
m = {"version": 1, "setup_cmd": "python3 -m vlib.build asan g2 pymod", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in sorted(NOTE) if p not in have],
     "notes": "No hooks in /repo: the drivers in harness/ observe through the public C++ interface. Every check rebuilds what it needs from /repo's working tree (content-addressed under build/)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks))
