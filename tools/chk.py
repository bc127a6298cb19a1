import json,os
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    if len(d['title'])>80: print(d['id'],len(d['title']))
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(d['id'],f)
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
[jsonschema.validate(json.loads(l),s) for l in open('/verif/properties.jsonl')]
if os.path.exists('/verif/MANIFEST.json'):
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('ok')
