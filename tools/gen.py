#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (tools/table.py)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from table import PROPS, NA
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = ("Every obligation generated from the compiled real code is discharged by z3 for all inputs (loops cut by invariants, no bound), function by function against contracts. "
         "Trusted: clang front end and a few opt passes, the VC generator in vf/, z3, and the library/callback contracts listed in the evidence. ")
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in PROPS + [n for n in NA if "statement" in n]:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p.get("over", ["inputs"]), text=p["forall"]),
                                why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("obs", []), hook_needed=None))) + "\n")
        assert p["statement"].count(". ") <= 2, p["id"]
        assert len(p["title"]) <= 80, p["id"]
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=[
    dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick python3-vt -m vf.run {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3-vt -m vf.run {p['id']} --tier thorough",
         evidence_file=f"evidence/{p['id']}.json", technique="contract-based deductive verification of the real code (VCs over its LLVM IR, invariants inferred from contract-level candidates, z3)",
         level=p.get("level", "proof"), level_note=LEVEL + p.get("note", "")) for p in PROPS],
    not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA],
    notes="See DESIGN.md. Replay drivers (replay/) only look for a concrete failing input after an obligation failed; they decide nothing.")
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
