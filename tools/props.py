#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, level=None, note="", na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why, anchors=a), note, na))


exec(open(os.path.join(HERE, "tools/table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as h:
    for p, _, _ in P:
        h.write(json.dumps(p) + "\n")
BASE = ("Bounded: sizes, path depth and budgets as listed in the evidence. Concolic symbolic execution of the compiled "
        "repository code; z3 (QF_FF) decides every branch alternative and value identity for all field values; "
        "violations are replayed on the unmodified libraries. Trusts: algebraic adversary/discrete-log model of groups, "
        "random-oracle model of SHA-256, z3, the shadow instrumentation. ")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": HOOKS,
    "checks": [
        {"property": p["id"], "quick_cmd": f"./run.py {p['id']} quick", "thorough_cmd": f"./run.py {p['id']} thorough",
         "technique": "symbolic (concolic) execution of the real code with SMT (z3 finite fields) deciding all branches and identities",
         "level": "model_checking", "level_note": BASE + note}
        for p, note, na in P if not na],
    "not_applicable": [{"property": p["id"], "reason": na} for p, note, na in P if na],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
