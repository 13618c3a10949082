#!/usr/bin/env python3
"""minimise.py PROP SEED [KIND] [OUT]: minimises one seed's violation (a development aid)"""
import sys, json, time, subprocess, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")); import check
p, s = sys.argv[1], sys.argv[2]; out = sys.argv[4] if len(sys.argv) > 4 else "/tmp/m.json"
c = check.Check(p, "quick", 1)
w = check.Worker(p); r = w.ask(f"seed {p} {s}"); w.end()
vs = check.violations(r); kind = sys.argv[3] if len(sys.argv) > 3 and sys.argv[3] else vs[0][1]
plan = json.loads(subprocess.run(check.simulator(p) + ["plan", p, s], capture_output=True, text=True).stdout)
d = c.minimise(plan.get("plan", plan), kind, time.time() + 90)
d["message"] = [m for _, k, m in vs if k == kind][0]
json.dump(d, open(out, "w"))
