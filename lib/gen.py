#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from texts.py and props.py"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import texts, props
NA = getattr(texts, "NOT_APPLICABLE", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, t in texts.TEXTS.items():
        assert len(t["title"]) <= 80, pid
        f.write(json.dumps({"id": pid, "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["qtext"]}, "why_tests_cant": t["why"],
                            "anchors": {"files": t["files"], "mechanism": [{"name": n, "where": w} for n, w in t["mech"]], "hook_needed": None}}) + "\n")
checks = []
for pid, t in texts.TEXTS.items():
    if pid not in props.PROPS:
        continue
    note = t["note"] or "Within the stated bounds, every path explored holds for all values of its symbolic inputs (SAT, cross-checked with Z3); configurations that reach their time limit are listed as such in the evidence. Bounds: " + props.PROPS[pid]["bounds"] + ". Trusts the executor's IR semantics (sampled paths are replayed on the native build) and the model of libzstd, clock, allocator and threads."
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid, "technique": t["technique"], "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bash engine/build.sh build", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: the checks compile /repo's sources unchanged to LLVM IR. Fixes of genuine defects are listed in known-findings.jsonl."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
