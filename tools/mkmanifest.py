#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           technique=c.get("technique", "runtime monitoring: ASan/UBSan/LSan-instrumented runs of generated workloads, online comparison of every observed event, error and value with an independent reference model"),
                           level="exploration", level_note=c.get("note", "sampled workloads, no exhaustiveness claimed; see DESIGN.md section " + i)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=na, notes="All checks build the harnesses in harness/ against /repo/include (and src/input/file.cpp) at run time; no hooks in /repo.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
