import json, sys, glob
import jsonschema
S='/root/.vp/'
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open(S+'MANIFEST.schema.json')))
ps=json.load(open(S+'PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,ps); ids.append(d['id'])
es=json.load(open(S+'EVIDENCE.schema.json'))
for f in sorted(glob.glob('/verif/evidence/*.json')):
    jsonschema.validate(json.load(open(f)),es)
m=json.load(open('/verif/MANIFEST.json'))
assert sorted(c['property'] for c in m['checks'])==sorted(ids)
print('ok', len(ids))
