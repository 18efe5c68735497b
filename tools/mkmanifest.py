#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in sa/ is claimed."""
import json,subprocess,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={} # id -> (technique, level_note)
NA={} # id -> reason
exec(open(os.path.join(here,'tools','manifest_body.py')).read())
props=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
checks=[]
for p in props:
    if p in T:
        t,n=T[p]
        checks.append(dict(property=p,quick_cmd=f"./run.sh {p}",thorough_cmd=f"./run.sh {p}",technique=t,level="other",level_note=n,evidence_file=f"evidence/{p}.json"))
    elif p not in NA:
        NA[p]="no check yet"
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[dict(property=p,reason=NA[p]) for p in props if p not in T],
  notes="All checks are one analyzer (sa/, Go) run on the type-checked, SSA form of /repo's working tree; no hooks are needed in /repo.")
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); print(len(checks),"claimed")
