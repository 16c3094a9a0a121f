#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and units.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from units import PROPS, UNITS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i not in PROPS:
        na.append(dict(property=i, reason="not built yet"))
        continue
    p = PROPS[i]
    mods = ", ".join(sorted({m[0] for m in p["mc"]}))
    trs = ", ".join(sorted({UNITS[u]["spec"] for u in p["units"]}))
    checks.append(dict(
        property=i,
        quick_cmd="python3 check.py %s --tier quick" % i,
        thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="TLA+ specification: TLC model checking plus TLC validation of traces recorded from the real code (%s; %s)" % (mods, trs),
        level="model_checking",
        level_note=p.get("note", "TLC checks the property exhaustively on the specification for small constants; the real code is bound to it by executing TLC-generated and seeded random operation sequences and letting TLC accept or reject every recorded step. Trusts TLC, the recording harness and its projection of floats on integer units of 1e-6; inputs and schedules outside those executed are not decided.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ with TLC. No hooks in /repo; the harness packages are overlaid at build time (go test -overlay). Known findings and repaired defects: known-findings.json.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
