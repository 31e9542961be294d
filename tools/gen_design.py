#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property, tools/design_tail.md.
Per property: statement from properties.jsonl, technique and bounds from manifest_notes.py, rules and counts from the
evidence files of a run on the unchanged tree (default /verif/evidence)."""
import json,os,sys,glob
sys.path.insert(0,os.path.dirname(__file__))
from manifest_notes import TECH,NOTE,NA
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV=sys.argv[1] if len(sys.argv)>1 else V+'/evidence'
out=open(V+'/tools/design_head.md').read().rstrip()+'\n\n## The properties\n'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
seeds={}
for s in sorted(glob.glob(V+'/seeded/*/meta.json')):
    seeds.setdefault(json.load(open(s))['property'],[]).append(os.path.basename(os.path.dirname(s)))
for p in props:
    i=p['id']
    out+=f"\n### {i} — {p['title']}\n\n"
    if i in NA:
        out+='Not applicable: '+NA[i]+'.\n'; continue
    ev=json.load(open(f'{EV}/{i}.json')); c=ev['coverage']
    out+='*Decided by* '+TECH[i]+'.\n\n'
    out+='Rules:\n'+''.join(f'- {r}\n' for r in c['rules'])
    by=', '.join(f'{k} {v}' for k,v in sorted(c['obligations_by_rule'].items()))
    out+=f"\nOn the current tree: {c['obligations']} obligations ({by}); {c.get('functions_analysed',len(c.get('functions') or []))} functions involved"
    if c.get('dataflow_states'): out+=f"; {c['dataflow_states']} abstract states"
    out+='.\n\nWhy tests cannot settle it: '+p['why_tests_cant']+'\n\n'
    out+='Bounds: '+NOTE[i].strip()+'\n'
    if ev.get('assumptions'): out+='\nAssumptions: '+'; '.join(ev['assumptions'])+'.\n'
    if i in seeds: out+='\nPlanted: '+', '.join(seeds[i])+' — caught by this check.\n'
out+='\n'+open(V+'/tools/design_tail.md').read()
open(V+'/DESIGN.md','w').write(out)
