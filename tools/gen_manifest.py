#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json,re,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed={}
for d in ('mqttp','vlmonitoring','vltypes'):
    base='/verif/contracts/'+d
    if not os.path.isdir(base): continue
    for f in sorted(os.listdir(base)):
        for m in re.findall(r'func Verify(C\d\d)_(\w+)\(',open(base+'/'+f).read()):
            claimed.setdefault(m[0],[]).append('Verify%s_%s'%m)
notes=json.load(open('/verif/tools/level_notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed:
        n=notes.get(i,{})
        c={"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough",
           "technique":"contract-based deductive verification: govc generates obligations from the SSA of /repo's current source against executable Go contracts, z3/cvc5 discharge them",
           "level":n.get("level","proof"),"level_note":n.get("note","Every obligation of the contract is discharged for all inputs on the SSA of the current source; trusts govc, the Go front end and the SMT solver.")}
        c["theorems"]=claimed[i]
        checks.append(c)
    else:
        na.append({"property":i,"reason":notes.get(i,{}).get("na","no contract built yet")})
json.dump({"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
  "notes":"Contracts are brought into the packages with an overlay (go/packages overlay for the verifier, go test -overlay for replay); /repo carries no hooks. Fixed defects and findings: known_findings.json."},open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
