import json
from checks import CHECKS, NOT_APPLICABLE
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m=dict(version=1,setup_cmd="python3 setup.py",
 hooks=dict(guard="none",enable="no hooks are needed: the checks compile /repo's sources unmodified",source_commits=[]),
 checks=[dict(property=p,quick_cmd=f"python3 check.py {p} --tier quick",thorough_cmd=f"python3 check.py {p} --tier thorough",evidence_file=f"evidence/{p}.json",
   technique=CHECKS[p]["technique"],level=CHECKS[p].get("level","model_checking"),level_note=CHECKS[p]["note"]) for p in props if p in CHECKS],
 not_applicable=[dict(property=p,reason=NOT_APPLICABLE.get(p,"no check built yet")) for p in props if p not in CHECKS])
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
