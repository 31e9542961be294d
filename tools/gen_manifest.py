#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the checks the checker implements."""
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
reg=set()
for f in glob.glob(V+'/checker/*.go'):
    reg|=set(re.findall(r'register\("(C\d+)"',open(f).read()))
exec(open(V+'/tools/manifest_notes.py').read())  # TECH, NOTE, NA
checks=[];na=[]
for p in props:
    i=p['id']
    if i in reg and i not in NA:
        checks.append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough","technique":TECH[i],"level":"other","level_note":NOTE[i]})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'na')
