#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from contracts/props.json and properties.jsonl."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
conf=json.load(open('/verif/contracts/props.json'))
checks=[];na=[]
for p in props:
    i=p['id']; c=conf.get(i)
    if not c or c.get('na'):
        na.append({"property":i,"reason":(c or {}).get('na') or "no check yet: contracts for this part are still being written"})
        continue
    t="contract-based deductive verification: contracts on the real Go code (contracts/*.gvc), verification conditions generated by govc from the SSA of /repo's current source, discharged by z3/cvc5"
    if c.get('asm'): t+="; verification conditions generated from the real assembly text"
    if c.get('batteries'): t+="; bounded executions of the same functions as labelled stand-ins and to replay failures"
    checks.append({"property":i,"quick_cmd":f"bash bin/check.sh {i} quick","thorough_cmd":f"bash bin/check.sh {i} thorough","technique":t,"level":c.get("level","proof"),"level_note":c.get('scope','')})
json.dump({"version":1,"setup_cmd":"bash bin/build.sh","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
