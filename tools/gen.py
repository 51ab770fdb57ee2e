#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from driver/props.py (run by hand; not part of any check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
from props import P, NA
from spec import PROPS

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
checks = []
for p in P:
    if p["id"] not in PROPS:
        assert p["id"] in NA, p["id"]
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": "symbolic execution of the real code's LLVM bitcode, assertions decided by Z3 / exact byte-domain reasoning, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": p.get("note") or "Bounded: holds for every input within the bounds stated per run in the evidence file (thorough widens them); nothing is claimed outside. Trusts rustc/LLVM lowering, the zsym engine (sampled paths are replayed natively on every run) and the oracle written in the harness.",
    })
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the harness crates use the public items of /repo's crates (path dependencies)", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "check.py builds engine and harness from /repo's working tree, runs the symbolic executor, replays counterexamples. /repo carries only fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
