import json,os
T="contract-based deductive verification (pv: obligations from the real source, z3) with a bounded stand-in"
B="bounded run-time check of the contracts (stand-in; nothing proved yet)"
LEVEL={}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
from contracts_info import INFO
checks=[]
for p in props:
    i=p['id']
    info=INFO.get(i,{})
    checks.append(dict(property=i,quick_cmd=f"python3 check.py {i}",thorough_cmd=f"python3 check.py {i} --tier thorough",
      technique=info.get('technique',B),level=info.get('level','exploration'),level_note=info.get('note','Bounded: sampled codes and inputs only; no obligation is discharged for this property.')))
m=dict(version=1,setup_cmd="true",checks=checks,not_applicable=[],notes="No hooks in /repo; fix: commits only. See DESIGN.md.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
