#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans in check.py and the list below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ids = [p["id"] for p in props]
NOTE_MC = ("TLC explores the specification exhaustively within the constants listed per stage in the evidence and every explored "
           "state or transition is replayed through the code built from /repo; ")
NOTE_TRACE = "recorded runs of the code on larger random inputs are checked against the specification by TLC; "
NOTE_FRONT = ("TLC explores the specification exhaustively within the constants listed per stage in the evidence; the frontend of /repo, bundled "
              "with a stand-in for the browser and on top of the real aftermath-core/web crate built natively, runs every explored case and larger random "
              "ones, and TLC checks what it showed against the specification; ")
TRUST = "trusts TLC, the JSON projection in harness/common and the bounds listed; not a proof beyond them."
NOTES = getattr(check, "NOTES", {})
checks = []
for i in ids:
    if i not in check.PLANS:
        continue
    front = i in ("C29", "C30", "C31", "C32", "C33", "C35", "C37")
    note = NOTES.get(i) or (NOTE_FRONT if front else NOTE_MC + NOTE_TRACE) + TRUST
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       technique="TLA+ specification checked with TLC; explored behaviours replayed into the " + ("frontend" if front else "Rust code") + ", recorded traces validated by TLC",
                       level="model_checking", level_note=note))
na = [dict(property=i, reason=getattr(check, "NOT_APPLICABLE", {}).get(i, "no check built yet")) for i in ids if i not in check.PLANS]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="Language: TLA+ (TLC). One specification in spec/, one harness workspace in harness/, check.py runs both.")
if getattr(check, "HOOKS", None):
    m["hooks"] = check.HOOKS
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
