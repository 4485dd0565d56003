import json,jsonschema
P=json.load(open('/root/.vp/PROPERTIES.schema.json'));M=json.load(open('/root/.vp/MANIFEST.schema.json'));E=json.load(open('/root/.vp/EVIDENCE.schema.json'))
rows=[json.loads(l) for l in open('/verif/properties.jsonl')]
try:
    jsonschema.validate(rows,P)
except jsonschema.ValidationError:
    for r in rows: jsonschema.validate(r,P)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),M)
import glob
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),E)
print('valid')
