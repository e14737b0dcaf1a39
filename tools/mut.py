#!/usr/bin/env python3
"""mut.py FILE [NAME...]: applies each change of FILE (a python list M of (name, property, path, old, new)) to the clone
/tmp/seed, runs the property's quick check with the clone in place of /repo (/tmp/ns.sh), and undoes it."""
import subprocess, sys, json, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
names = sys.argv[2:]
S = "/tmp/seed/"
for (name, prop, path, old, new) in ns["M"]:
    if names and name not in names:
        continue
    s = open(S + path).read()
    if s.count(old) < 1:
        print(name, "OLD NOT FOUND", flush=True)
        continue
    if s.count(old) > 1 and not name.endswith("*"):
        print(name, "AMBIGUOUS", s.count(old), flush=True)
        continue
    open(S + path, "w").write(s.replace(old, new))
    t = time.time()
    try:
        for p in prop.split():
            r = subprocess.run(["/tmp/ns.sh", "python3", "check.py", p, "quick"], capture_output=True, text=True)
            out = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
            print(name, p, "rc", r.returncode, f"{time.time()-t:.0f}s", (next((l for l in out if "VIOLATION" in l), out[-1] if out else ""))[:230], flush=True)
            if r.returncode == 1:
                w = [l for l in out if "VIOLATION" not in l]
                print("      ", w[-1][:200] if w else "", flush=True)
    finally:
        open(S + path, "w").write(s)
