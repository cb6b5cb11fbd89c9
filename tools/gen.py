#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
TECH = "symbolic execution of the real code over go/ssa, decided by the z3 SMT solver"

def rungs(l):
    out = []
    for r in l:
        r = dict(r)
        b = r.pop("budget_s", None)
        o = {"params": r}
        if b: o["budget_s"] = b
        out.append(o)
    return out

checks, man, na = {}, [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        if not p.get("runs"):
            na.append({"property": p["id"], "reason": p.get("na", "No check built yet.")})
            continue
        checks[p["id"]] = {"runs": [
            {"entry": r["entry"], "what": r["what"], "bounds": r["bounds"],
             "quick": rungs(r["quick"]), "thorough": rungs(r["thorough"]),
             "reach": r.get("reach", [])} for r in p["runs"]],
            "outside": p["outside"], "assumptions": p.get("assumptions", [])}
        man.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
                    "thorough_cmd": f"./check.sh {p['id']} thorough",
                    "evidence_file": f"evidence/{p['id']}.json",
                    "technique": TECH, "level": "model_checking",
                    "level_note": p.get("note", "Bounded: holds for every value of the symbolic inputs within the bounds listed in evidence; outside: " + p["outside"])})
json.dump(checks, open(os.path.join(root, "checks.json"), "w"), indent=1, ensure_ascii=False)
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": man, "not_applicable": na,
           "notes": "No hooks in /repo: harnesses reach the code through an overlay package. See DESIGN.md."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
