#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and the registered rules"""
import json, os, sys
sys.setrecursionlimit(12000)
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(V, "sa"))
import props, registry, na
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS + na.PROPS:
        f.write(json.dumps(p) + "\n")
TECH = registry.TECH if hasattr(registry, "TECH") else {}
checks, nap = [], []
for p in props.PROPS:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 sa/run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 sa/run.py %s --tier thorough" % i,
                       "technique": props.TECH.get(i, "abstract interpretation of the repository's source over value-numbered terms, array shapes, units, dependence sets and object identity"),
                       "level": "other",
                       "level_note": "Sound up to the stated transfer functions of external libraries; " + c["explanation"]})
    else:
        nap.append({"property": i, "reason": "check not built yet"})
for p in na.PROPS:
    nap.append({"property": p["id"], "reason": na.REASON[p["id"]]})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": nap}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(nap), "not applicable")
