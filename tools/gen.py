#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py, checks.json and na.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props
c = json.load(open(V + "/checks.json")); na = json.load(open(V + "/tools/na.json")); hooks = na.pop("_hooks", None)
for q in props.P: assert len(q["title"]) <= 80, q["id"]
open(V + "/properties.jsonl", "w").write("".join(json.dumps(q) + "\n" for q in props.P))
chk, no = [], []
for q in props.P:
    i = q["id"]
    if i in c: chk.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
        technique="symbolic execution of the compiled code (LLVM IR of /repo's sources) with Z3: every feasible path within the bounds, every assertion an SMT query; counterexamples replayed natively",
        level="model_checking", level_note=c[i]["bounds"]))
    else: no.append(dict(property=i, reason=na.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=chk, not_applicable=no, notes="see DESIGN.md; known findings and fixes are in known-findings.txt")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(chk), "checks;", len(no), "not applicable")
