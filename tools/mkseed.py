#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PATCH NEEDS WHAT REPLAY...: makes seeded/ID with a demonstration that replays the given histories
in a simulator built, in a scratch directory, from a copy of the simulator's sources that lies beside it."""
import sys, os, json, tarfile, io, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# exit 0: the histories in case*.json show nothing; 1: they show the defect.  Run with cwd = the repository.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'chmod -R u+w "$scratch" 2>/dev/null; find "$scratch" -mindepth 1 -delete 2>/dev/null; rmdir "$scratch" 2>/dev/null' EXIT
python3 "$here/demo.py" "$here" "$scratch" "$PWD"
"""
DEMO_PY = '''import sys, os, json, subprocess, tarfile
here, scratch, repo = sys.argv[1:4]
tarfile.open(os.path.join(here, "sim.tar.xz")).extractall(scratch)
env = dict(os.environ, SIM_REPO=repo, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(scratch, "target/h"), SIM_SCRATCH=os.path.join(scratch, "ws"), CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0")
for t in ("stage.py", "genmain.py"): subprocess.run([sys.executable, os.path.join(scratch, "tools", t)], check=True, env=env)
r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(scratch, "sim/harness"), env=env, capture_output=True, text=True)
if r.returncode: print(r.stderr[-3000:]); sys.exit(2)
bad = 0
for f in sorted(os.listdir(here)):
    if not (f.startswith("case") and f.endswith(".json")): continue
    r = subprocess.run([os.path.join(scratch, "target/h/debug/simlsp"), "worker", "x"], input=f"file {os.path.join(here, f)}\\n", env=env, capture_output=True, text=True)
    d = json.loads(r.stdout.strip().splitlines()[-1])
    for v in d.get("violations", []): print(f, v["kind"], v["msg"][:600]); bad = 1
    if d.get("died"): print(f, "the server died:", d["died"]); bad = 1
    if not d.get("violations") and not d.get("died"): print(f, "nothing wrong")
sys.exit(bad)
'''
DEMO_EXT = '''import sys, os, json, subprocess
here, scratch, repo = sys.argv[1:4]
out = os.path.join(scratch, "ext.cjs")
r = subprocess.run(["/opt/veriftools/node/node_modules/.bin/esbuild", os.path.join(repo, "editors/code/src/extension.ts"), "--bundle", "--outfile=" + out, "--packages=external", "--format=cjs", "--platform=node", "--target=node20", "--supported:dynamic-import=false", "--log-level=error"], capture_output=True, text=True)
if r.returncode: print(r.stderr[-3000:]); sys.exit(2)
bad = 0
for f in sorted(os.listdir(here)):
    if not (f.startswith("case") and f.endswith(".json")): continue
    r = subprocess.run(["node", os.path.join(here, "ext", "sim.js"), "one", os.path.join(here, f)], env=dict(os.environ, SIM_EXT=out, SIM_REPO=repo), capture_output=True, text=True)
    d = json.loads(r.stdout)
    for v in d["violations"]: print(f, v["kind"], v["msg"][:600]); bad = 1
    if not d["violations"]: print(f, "nothing wrong", d["inconclusive"])
sys.exit(bad)
'''
def main():
    ident, prop, patch, needs, what, *replays = sys.argv[1:]
    d = os.path.join(HERE, "seeded", ident); os.makedirs(d, exist_ok=True)
    shutil.rmtree(d); os.makedirs(d)
    ext = prop in ("C19", "C24")
    shutil.copy(patch, os.path.join(d, "patch.diff"))
    with open(os.path.join(d, "demo.sh"), "w") as f: f.write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "demo.py"), "w") as f: f.write(DEMO_EXT if ext else DEMO_PY)
    for i, r in enumerate(replays):
        j = json.load(open(r)); o = {"plan": j["plan"]}
        if "picks" in j: o["picks"] = j["picks"]
        with open(os.path.join(d, f"case{i}.json"), "w") as f: json.dump(o, f, indent=1)
    def keep(t):
        t.uid = t.gid = 0; t.uname = t.gname = ""; t.mtime = 0
        return None if "/target" in t.name or "__pycache__" in t.name else t
    if ext: shutil.copytree(os.path.join(HERE, "sim", "ext"), os.path.join(d, "ext"))
    else:
     with tarfile.open(os.path.join(d, "sim.tar.xz"), "w:xz") as t:
         t.add(os.path.join(HERE, "sim"), "sim", filter=keep)
         for f in ("stage.py", "genmain.py"): t.add(os.path.join(HERE, "tools", f), "tools/" + f, filter=keep)
    with open(os.path.join(d, "meta.json"), "w") as f: json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, f, indent=1)
    print(d)
main()
