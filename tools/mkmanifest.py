#!/usr/bin/env python3
"""write MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check  # noqa
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i not in PROPS:
        m["not_applicable"].append({"property": i, "reason": "no monitor yet"})
        continue
    c = PROPS[i]
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c.get("note", "Held on the executions observed (counts in the evidence), in a build with overflow checks and debug assertions and in a plain release build; trusts the reference model in harness/src and the Rust toolchain."),
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
