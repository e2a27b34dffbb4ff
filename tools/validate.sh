#!/bin/bash
# Validate MANIFEST.json, properties.jsonl and evidence files against their schemas (development aid).
python3-vt - <<'P'
import json, jsonschema, glob
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    jsonschema.validate(p, sch)
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/C*.json'):
    jsonschema.validate(json.load(open(f)), es)
print('valid')
P
