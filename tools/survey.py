#!/usr/bin/env python3
"""survey.py PROP[,PROP] START COUNT [workers]: runs seeds and tabulates what is reported (a development aid)"""
import sys, json, subprocess, threading, collections, time, os
BIN = os.environ.get("SIM_BIN", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "target/h/debug/simlsp"))
props = sys.argv[1].split(","); start = int(sys.argv[2]); count = int(sys.argv[3]); nw = int(sys.argv[4]) if len(sys.argv) > 4 else 8
jobs = [(p, s) for s in range(start, start + count) for p in props]; jobs.reverse()
lock = threading.Lock(); res = []
def work():
    pr = subprocess.Popen([BIN, "worker", "x"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    while True:
        with lock:
            if not jobs: break
            p, s = jobs.pop()
        pr.stdin.write(f"seed {p} {s}\n"); pr.stdin.flush()
        l = pr.stdout.readline()
        with lock: res.append(json.loads(l) if l.strip().startswith("{") else {"prop": p, "seed": s, "died": "worker " + l})
    pr.stdin.close(); pr.wait()
t0 = time.time()
ts = [threading.Thread(target=work) for _ in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
dt = time.time() - t0
by = collections.defaultdict(list)
for r in res:
    if r.get("died"): by[(r["prop"], "DIED " + r["died"])].append((r["seed"], ""))
    for v in r.get("violations", [])[:1]: by[(r["prop"], v["kind"])].append((r["seed"], v["msg"]))
    for v in r.get("inconclusive", [])[:1]: by[(r["prop"], "inconclusive")].append((r["seed"], v))
print(f"{len(res)} cases in {dt:.1f}s; mean {sum(r.get('ms',0) for r in res)/max(1,len(res)):.0f} ms; max {max((r.get('ms',0),r['seed']) for r in res)}; distinct {len({r.get('hash') for r in res})}")
for k, v in sorted(by.items(), key=lambda x: (x[0][0], -len(x[1]))):
    print(k, len(v), "seeds", sorted(s for s, _ in v)[:6]); print("    ", v[0][0], v[0][1][:int(os.environ.get("W", "420"))])
json.dump(res, open("/tmp/survey.json", "w"))
