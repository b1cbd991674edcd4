import json, jsonschema, os
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,ps); ids.append(d['id'])
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir('/verif/evidence')): jsonschema.validate(json.load(open('/verif/evidence/'+f)),es)
print('ok',ids)
