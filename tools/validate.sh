#!/bin/sh
# Validates properties.jsonl, MANIFEST.json and the evidence against the schemas.
python3-vt - <<'P'
import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/C??.json'): jsonschema.validate(json.load(open(f)),e)
print("schemas ok")
P
