#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in DONE is claimed."""
import json, os, sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root,"tools"))
props=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
from checks import CHECKS
m=dict(version=1,setup_cmd="bash run.sh setup",checks=[],not_applicable=[])
for p in props:
    if p in CHECKS:
        t,n=CHECKS[p]
        m["checks"].append(dict(property=p,quick_cmd=f"bash run.sh {p}",thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p}",
            evidence_file=f"evidence/{p}.json",technique=t,level="exploration",level_note=n))
    else:
        m["not_applicable"].append(dict(property=p,reason="its generated-input check is not finished yet; nothing is claimed"))
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
