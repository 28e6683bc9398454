#!/usr/bin/env python3-vt
import json,jsonschema,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,sc); ids.append(d['id'])
    n=len(re.findall(r'\.(\s|$)',d['statement']))
    if n>3: print(d['id'],n,'sentences')
m=json.load(open(V+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
claimed=[c['property'] for c in m['checks']]; na=[c['property'] for c in m.get('not_applicable',[])]
assert sorted(claimed+na)==sorted(ids),(set(ids)^set(claimed+na))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for c in claimed:
    f=V+'/evidence/%s.json'%c
    if os.path.exists(f): jsonschema.validate(json.load(open(f)),es)
    else: print('no evidence',c)
print('ok',len(claimed),'claimed',len(na),'n/a')
