#!/usr/bin/env python3
# writes /verif/MANIFEST.json from engine/props.py and properties.jsonl
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H+'/engine')
from props import PROPS, COMMON_AS
ids=[json.loads(l)['id'] for l in open(H+'/properties.jsonl')]
NA={'C21':'termination of the search is a liveness property: the contracts are for partial correctness, and no variant within reach covers restarts and clause learning together'}
LATER='its functions are not under contract yet, so nothing of it is claimed'
m=dict(version=1,setup_cmd='bash setup.sh',checks=[],not_applicable=[])
for i in ids:
    if i not in PROPS: m['not_applicable'].append(dict(property=i,reason=NA.get(i,LATER))); continue
    c=PROPS[i]
    note=c['notes']+' Assumes: '+'; '.join(COMMON_AS+c.get('assumptions',[]))+'.'
    if c.get('bounded'): note+=' Bounded, not counted as proved: '+'; '.join(c['bounded'])+'.'
    m['checks'].append(dict(property=i,quick_cmd='python3 run.py %s quick'%i,thorough_cmd='python3 run.py %s thorough'%i,
      technique=c.get('technique','contract-based deductive verification of the real functions (weakest-precondition style obligations from the clang AST, discharged by z3/cvc5)'),level='proof',level_note=note))
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
