#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0,root+'/tools')
import props as _p
props=_p.PROPS
props.sort(key=lambda p:p['id'])
with open(root+'/properties.jsonl','w') as o:
    for p in props:
        q={k:p[k] for k in('id','title','statement','quantifier','why_tests_cant','anchors')}
        o.write(json.dumps(q,ensure_ascii=False)+'\n')
checks=[];na=[]
for p in props:
    c=p['check']
    if 'na' in c: na.append({'property':p['id'],'reason':c['na']}); continue
    checks.append({'property':p['id'],'quick_cmd':f"./check.sh {p['id']} quick",'thorough_cmd':f"./check.sh {p['id']} thorough",
      'technique':c['technique'],'level':c['level'],'level_note':c['note']})
json.dump({'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na},open(root+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open(root+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
