import json,jsonschema,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(V+'/properties.jsonl'): jsonschema.validate(json.loads(l),s); ids.append(json.loads(l)["id"])
jsonschema.validate(json.load(open(V+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for i in ids:
    f=V+f'/evidence/{i}.json'
    if os.path.exists(f): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print("valid",len(ids))
