#!/usr/bin/env python3
"""replay.py FILE: replays a violation (rebuilding from /repo first) and says whether it is the recorded one"""
import sys, os, json, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import check
f = os.path.abspath(sys.argv[1]); d = json.load(open(f)); prop = d["plan"]["prop"]
check.build(prop)
w = check.Worker(prop); r = w.ask(f"file {f}"); w.end()
for t, k, m in check.violations(r): print(f"{k} {t}: {m}")
e = d.get("expect", {}); same = any(k == e.get("kind") for _, k, _ in check.violations(r))
print(f"schedule hash {r.get('hash')}, recorded {e.get('hash')}; {'the same violation' if same else 'not the recorded violation'}")
sys.exit(1 if same else 0)
