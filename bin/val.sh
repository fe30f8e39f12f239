#!/bin/bash
# validates properties.jsonl, MANIFEST.json and evidence against the schemas
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json, jsonschema, glob
jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("properties.jsonl"): jsonschema.validate(json.loads(l), s)
s = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for f in glob.glob("evidence/C*.json"): jsonschema.validate(json.load(open(f)), s)
print("valid")
P
