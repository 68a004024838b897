import json, jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json')); m=json.load(open('/root/.vp/MANIFEST.schema.json')); e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), m)
import glob
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)), e)
print('ok')
