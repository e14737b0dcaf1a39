#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Rebuilds the symbolic and the concrete harness from /repo's current tree,
explores the property's scenarios, replays every counterexample on the
unmodified contracts, and reports.
Exit: 0 held on everything explored, 1 violation, 2 no answer."""
import json, os, subprocess, sys, time, glob, fcntl

V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get("SYM_BUILD", V + "/.build")
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
t0 = time.time()
os.makedirs(V + "/evidence", exist_ok=True)
OUT = B + "/out"
os.makedirs(OUT, exist_ok=True)


def die(msg):
    print("NO ANSWER: " + msg, file=sys.stderr)
    sys.exit(2)


def build():
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(B + "/driver/release/symrustc"):
            r = subprocess.run([V + "/build.sh", "driver"], capture_output=True, text=True)
            if r.returncode:
                die("driver does not build\n" + r.stderr[-3000:])
        ps = {k: subprocess.Popen([V + "/build.sh", k], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True) for k in ("sym", "rep")}
        for k, p in ps.items():
            err = p.communicate()[1]
            if p.returncode:
                die(f"{k} does not build\n" + "\n".join(l for l in err.splitlines() if "warning" not in l)[-4000:])


def run_cases(cases, name):
    """cases: [(scenario, inputs)] -> [(verdict, observed)] on the real code"""
    path = f"{OUT}/{name}"
    with open(path, "w") as f:
        for s, ins in cases:
            f.write(f"S {s}\n")
            for n, v in ins:
                f.write(f"I {n} {v}\n")
            f.write("END\n")
    r = subprocess.run([B + "/rep/debug/harness_rep", path], capture_output=True, text=True, timeout=600)
    res, obs = [], []
    for l in r.stdout.splitlines():
        if l.startswith("O "):
            p = l.split(" ", 2)
            obs.append([p[1], p[2] if len(p) > 2 else ""])
        elif l.startswith("CASE "):
            res.append((l.split(" ", 2)[2], obs))
            obs = []
    if len(res) != len(cases):
        die(f"replay stopped early: {r.stderr[-2000:]}")
    return res


build()
t1 = time.time()
known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == prop]
labels = [k["label"] for k in known]
limit = int(os.environ.get("SYM_TIME", "150" if tier == "quick" else "600"))
rep = f"{OUT}/{prop}.json"
if os.path.exists(rep):
    os.remove(rep)
cmd = [B + "/sym/debug/harness_sym", "--prop", prop, "--time", str(limit), "--threads", str(os.cpu_count() or 8),
       "--query-ms", "1500", "--fallback-ms", "6000", "--max-violations", "4", "--samples", "12", "--out", rep]
if labels:
    cmd += ["--known", ",".join(labels)]
if tier == "thorough":
    cmd.append("--thorough")
try:
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit + 120)
except subprocess.TimeoutExpired:
    die("the exploration did not stop")
if p.returncode or not os.path.exists(rep):
    die(f"the exploration failed ({p.returncode}): {p.stderr[-3000:]}")
R = json.load(open(rep))

trouble = []
if R["engine_errors"]:
    trouble.append(f"engine: {R['engine_errors'][:3]}")
if R["solver"]["model_mismatch"]:
    trouble.append("a solver model did not satisfy its query")

# counterexamples, replayed on the real code
new, found, unrep = [], {}, []
viol = R["violations"]
res = run_cases([(v["scenario"], v["inputs"]) for v in viol], prop + ".viol") if viol else []
for v, (verdict, obs) in zip(viol, res):
    full = v["scenario"] + "/" + v["label"]
    if verdict.split(" ")[:2] == ["violation", v["label"]] or (verdict.startswith("violation ") and v["label"] == "harness-panic"):
        if full in labels:
            found.setdefault(full, v)
        elif v["label"] == "harness-panic":
            # the harness assumes that its own set-up steps work
            new.append((v, verdict))
        else:
            new.append((v, verdict))
    else:
        unrep.append({"label": full, "replay": verdict, "inputs": v["inputs"]})
if unrep:
    trouble.append(f"counterexamples that the real code does not show: {unrep[:2]}")

# sample paths, replayed on the real code: same outcomes, same values
samples = R["samples"]
res = run_cases([(s["scenario"], s["inputs"]) for s in samples], prop + ".samples") if samples else []
agree = 0
for s, (verdict, obs) in zip(samples, res):
    if verdict == "ok" and [list(map(str, o)) for o in s["observed"]] == obs:
        agree += 1
    else:
        d = [(a, b) for a, b in zip(s["observed"], obs) if list(map(str, a)) != b][:3]
        trouble.append(f"sample of {s['scenario']} differs on the real code: {verdict} {d} {s['inputs']}")

missing = []
for s in R["scenarios"]:
    for c in s["required_covers"]:
        if c not in s["covers"]:
            missing.append(s["name"] + "/" + c)
if missing and R["exhausted"]:
    trouble.append("situations no input reaches: " + ", ".join(missing))

names = {}
for f in glob.glob(B + "/fnmap/*.txt"):
    for l in open(f):
        h, n = l.rstrip("\n").split(" ", 1)
        names[h] = n
fns = sorted(names.get(h, h) for h in R["functions"])
sv = R["solver"]
paths = sum(s["paths"] for s in R["scenarios"])
unsat = sum(c["unsat_by_solver"] + c["by_interval"] for s in R["scenarios"] for c in s["checks"].values())
evals = sum(c["evals"] for s in R["scenarios"] for c in s["checks"].values())
ev = {
    "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
    "coverage": {
        "states": paths,
        "transitions": sv["queries"],
        "traces_validated_against_impl": agree,
        "samples": [{"scenario": s["scenario"], "inputs": s["inputs"], "observed": s["observed"]} for s in samples[:4]],
        "explanation": "states: feasible symbolic paths explored, each standing for all inputs that take it; transitions: solver queries deciding branches and assertions; traces: model inputs of explored paths re-run on the unmodified contracts with equal results.",
        "exhausted": R["exhausted"], "timed_out": R["timed_out"], "frontier_left": R["frontier_left"],
        "assertions_evaluated": evals, "assertions_with_symbolic_condition_proved": unsat,
        "undecided_branches_explored_both_ways": R["undecided_branches"], "undecided_assertions": R["undecided_assertions"],
        "concretization_limited": R["concretization_limited"], "incomplete_paths": R["incomplete"],
        "required_situations_not_reached": missing,
        "scenarios": [{k: s[k] for k in ("name", "bounds", "paths", "infeasible", "incomplete", "max_decisions", "max_inputs", "covers", "checks", "cpu_s")} for s in R["scenarios"]],
        "functions_encoded": fns,
        "solver": {"name": "z3 5.3.2 (z3-new), with z3 4.8.12 and cvc5 1.1.2 when it gives up", **sv},
        "counterexamples_not_reproduced": unrep,
        "known_findings_seen": sorted(found),
    },
    "wall_s": round(time.time() - t0, 2), "build_s": round(t1 - t0, 2), "explore_s": R["wall_s"],
}
json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)

for k in known:
    if k["label"] in found:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
if new:
    seen = set()
    for v, verdict in new:
        full = v["scenario"] + "/" + v["label"]
        if full in seen:
            continue
        seen.add(full)
        path = f"{OUT}/{prop}.{v['scenario']}.{v['label']}.replay"
        with open(path, "w") as f:
            f.write(f"S {v['scenario']}\n" + "".join(f"I {n} {x}\n" for n, x in v["inputs"]) + "END\n")
        print(f"  {full}: {verdict} [{' '.join(n + '=' + x for n, x in v['inputs'])[:700]}]")
        print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1)
if trouble:
    die("; ".join(trouble)[:4000])
tot = f"{paths} paths, {sv['queries']} queries, {sv['solver_seconds']} s solver time"
print(f"{prop}: held on everything explored ({tot}; {'all paths within the bounds' if R['exhausted'] else 'time limit reached'})")
