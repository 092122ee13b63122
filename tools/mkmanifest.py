import json, os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
TECH={}
if os.path.exists(V+'/tools/tech.json'): TECH=json.load(open(V+'/tools/tech.json'))
D=dict(technique='TLA+ specification, trace validation with TLC', level='model_checking', note='Every generated application run on the real build (several representations of the arguments, and a build with randomised heuristics) is checked by TLC against the executable TLA+ definition of the primitive; bounded by the generator; trusts TLC and the spec.')
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(V+'/lib/p_%s.py'%i.lower()):
        t=dict(D); t.update(TECH.get(i,{}))
        checks.append(dict(property=i, quick_cmd='python3 lib/check.py %s'%i, thorough_cmd='VERIF_TIER=thorough python3 lib/check.py %s'%i, technique=t['technique'], level=t['level'], level_note=t['note']))
    else: na.append(dict(property=i, reason='no check built yet (in progress)'))
m=dict(version=1, setup_cmd='python3 lib/build.py so heur comp', checks=checks, not_applicable=na, notes='See DESIGN.md. No hooks in /repo are needed; builds use existing configuration defines.')
json.dump(m,open(V+'/MANIFEST.json','w'),ensure_ascii=False,indent=1)
print(len(checks),'checks',len(na),'na')
