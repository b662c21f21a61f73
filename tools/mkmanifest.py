#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a check for every property with a harness, a reason for every other one."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    if glob.glob(V + "/harness/" + p + "*.cpp") and p not in NA:
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s --tier quick" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": "symbolic execution of the LLVM IR of the real code (clang, from the current tree), every path's assertions decided by Z3; counterexamples replayed natively under ASan/UBSan",
            "level": "model_checking",
            "level_note": "exhaustive over all inputs within the bounds given per harness entry (//@ bound lines, repeated in the evidence file); no claim beyond them",
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for this property yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
