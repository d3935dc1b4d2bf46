#!/usr/bin/env python3
# MANIFEST.json from props.json and properties.jsonl
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
conf=json.load(open('props.json'))
na=json.load(open('tools/not_applicable.json'))
checks=[];nal=[]
for p in props:
    i=p['id']
    if i in conf and i not in na:
        c=conf[i]
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "technique":"symbolic execution of the Go SSA of the real code, assertions decided by z3, counterexamples replayed natively",
          "level":"model_checking",
          "level_note":"Bounded: "+c["bounds"]+" Outside: "+c["outside"]+(" Assumes: "+"; ".join(c["assumptions"]) if c["assumptions"] else "")})
    else:
        nal.append({"property":i,"reason":na.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"bash ./build.sh","checks":checks,"not_applicable":nal,
 "notes":"No hooks in /repo: the harnesses use the exported API through a build overlay. Every check regenerates the SSA from /repo's working tree."}
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks',[x['property'] for x in nal])
