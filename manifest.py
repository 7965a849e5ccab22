#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, re, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open("properties.jsonl") if l.strip()]
have = {}
for f in sorted(glob.glob("harness/h/*.go")):
    for m in re.finditer(r"^func (C\d\d)_(\w+)\(\)", open(f).read(), re.M):
        have.setdefault(m[1], []).append(m[2])
notes = json.load(open("level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in notes:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "symbolic execution of the Go SSA of /repo with an SMT solver (cvc5, z3) deciding every branch and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes[i],
        })
    else:
        na.append({"property": i, "reason": notes.get("not:" + i, "no check yet: its harness is not written")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not")
