#!/usr/bin/env python3
"""Writes SCENARIOS.md: every scenario of every property with its bounds, from the built harness (./b.sh rep first)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for l in subprocess.run([V + "/.build/rep/debug/harness_rep", "--list"], capture_output=True, text=True, check=True).stdout.splitlines():
    p, n, b = l.split("\t")
    rows.setdefault(p.rstrip("+"), []).append((n, "thorough" if p.endswith("+") else "quick", b))
t = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
out = ["# Scenarios and their bounds", "", "Made by `tools/scenarios.py` from `harness/`. \"thorough\" scenarios run in thorough checks only; the others in both.", ""]
for p in sorted(t):
    out += [f"## {p} {t[p]}", "", "| scenario | run | bounds |", "|---|---|---|"]
    out += [f"| {n} | {k} | {b} |" for n, k, b in rows.get(p, [])] + [""]
open(V + "/SCENARIOS.md", "w").write("\n".join(out))
print(sum(len(v) for v in rows.values()), "scenarios", [p for p in t if p not in rows])
