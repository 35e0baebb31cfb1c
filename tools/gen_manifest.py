#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, subprocess
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
done=subprocess.run(['/verif/bin/mapl-static','list','-v'],capture_output=True,text=True).stdout.strip().split('\n')
info={}
for l in done:
    i,tech,note=l.split('\t'); info[i]=(tech,note)
na=json.load(open('/verif/tools/not_applicable.json'))
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[],
   "notes":"All checks are static: they load and type-check the current source of /repo, build SSA and decide by dataflow. Nothing of /repo is executed. Each command analyses the current working tree."}
for i in ids:
    if i in info:
        m["checks"].append({"property":i,"quick_cmd":f"bash /verif/check.sh {i}","evidence_file":f"/verif/evidence/{i}.json","technique":info[i][0],"level":"other","level_note":info[i][1]})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,"no static check built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
