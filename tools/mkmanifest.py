import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE={}
exec(open(os.path.join(H,"tools","notes.py")).read())
claimed=[p for p in NOTE]
m=dict(version=1,setup_cmd="python3 setup.py",
 hooks=dict(guard="none",enable="No hooks in /repo: the checks build a verbatim copy of /repo's crates against simulated dependencies (tools/stage.py) and intercept libc below std.",source_commits=[]),
 checks=[dict(property=p,quick_cmd=f"python3 check.py {p}",thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",evidence_file=f"evidence/{p}.json",technique="deterministic simulation with fault injection: seeded schedules, histories and faults, judged by "+("invariants" if p in ("C19","C24") else "invariants and reference runs"),level="exploration",level_note=NOTE[p]) for p in claimed],
 not_applicable=[dict(property=p,reason=r) for p,r in NA.items()])
json.dump(m,open(os.path.join(H,"MANIFEST.json"),"w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
ids=[json.loads(l)["id"] for l in open(os.path.join(H,"properties.jsonl"))]
assert sorted(claimed+list(NA))==sorted(ids),(set(ids)^set(claimed+list(NA)))
