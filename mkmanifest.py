#!/usr/bin/env python3
"""writes MANIFEST.json: every property with a module in checks/ is claimed"""
import json, os
H=os.path.dirname(os.path.abspath(__file__))
NOTE={}
exec(open(os.path.join(H,'checks','notes.py')).read())
cs=[]
for l in open(os.path.join(H,'properties.jsonl')):
    p=json.loads(l)['id']
    if not os.path.exists(os.path.join(H,'checks',p.lower()+'.py')): continue
    cs.append({'property':p,'quick_cmd':'python3-vt check.py %s quick'%p,'thorough_cmd':'python3-vt check.py %s thorough'%p,'evidence_file':'evidence/%s.json'%p,
     'technique':'symbolic execution of the whole interpreter from LLVM IR; z3 decides path conditions and equality with a symbolically executed reference semantics','level':'model_checking','level_note':NOTE[p]})
m={'version':1,'setup_cmd':'python3-vt engine/build.py inst asan plain','checks':cs,'not_applicable':[]}
json.dump(m,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
