#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The one place where properties are stated."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None},
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append((d, " ".join(note.split())))


exec(open(V + "/props_table.py").read())

TECH = "symbolic execution of the compiled contracts (instrumented MIR) with SMT-decided branches and assertions, counterexamples replayed on the unmodified contracts"
COMMON = (" Paths are explored to the end within the stated bounds (the evidence says whether all were); every assertion is decided by z3 for all values on its path."
          " Trusted: the instrumentation, the value-tagging of decimal text, cw-multi-test as the chain, the reference model in the harness.")
with open(V + "/properties.jsonl", "w") as f:
    for d, _ in P:
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": d["id"],
            "quick_cmd": f"python3 check.py {d['id']} quick",
            "thorough_cmd": f"python3 check.py {d['id']} thorough",
            "technique": TECH,
            "level": "model_checking",
            "level_note": note + COMMON,
        }
        for d, note in P
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA],
    "notes": "No hooks are needed in /repo: the harness drives the contracts' public entry points, compiled by a rustc driver in /verif that instruments MIR.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
