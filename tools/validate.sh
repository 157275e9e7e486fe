#!/bin/sh
# validates the committed descriptions against the schemas (uses the sandbox's tooling venv)
cd "$(dirname "$0")/.." && /opt/veriftools/pyvenv/bin/python - <<'P'
import json, jsonschema, glob, os
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('valid')
P
