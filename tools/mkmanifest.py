#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bounds.json (the claimed properties) and properties.jsonl."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
b=json.load(open(root+"/bounds.json"))
na=json.load(open(root+"/tools/na.json")) if os.path.exists(root+"/tools/na.json") else {}
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
checks=[]
for i in ids:
    if i not in b: continue
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
        technique="symbolic execution of the real Go code (SSA) with Z3 deciding every assertion; counterexamples replayed natively",
        level="model_checking",
        level_note="Holds for all values within: "+b[i]+" Trusts the engine's model of reflect/fmt/sync and z3; sampled paths are replayed on the compiled code and sampled obligations re-decided by cvc5."))
m=dict(version=1,setup_cmd="cd engine && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local go build -o /dev/null .",
    checks=checks,
    not_applicable=[dict(property=i,reason=na.get(i,"check under construction")) for i in ids if i not in b],
    notes="No hooks: the checks read /repo's current source and drive its public API. See DESIGN.md.")
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
open(root+"/MANIFEST.json","a").write("\n")
