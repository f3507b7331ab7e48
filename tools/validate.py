"""Validate MANIFEST.json, properties.jsonl and the evidence files against their schemas (python3-vt)."""
import glob, json, jsonschema
L = lambda p: json.load(open(p))
jsonschema.validate(L('/verif/MANIFEST.json'), L('/root/.vp/MANIFEST.schema.json'))
s = L('/root/.vp/PROPERTIES.schema.json')
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
s = L('/root/.vp/EVIDENCE.schema.json')
for f in sorted(glob.glob('/verif/evidence/*.json')):
    try:
        jsonschema.validate(L(f), s)
    except jsonschema.ValidationError as e:
        print(f, e.message[:200])
print('done')
