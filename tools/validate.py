#!/usr/bin/env python3-vt
"""Validates properties, manifest and evidence against the schemas (run with python3-vt)."""
import json, glob, jsonschema
S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
for i, l in enumerate(open("/verif/properties.jsonl")): jsonschema.validate(json.loads(l), S("PROPERTIES"))
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), S("MANIFEST"))
for f in glob.glob("/verif/evidence/*.json"): jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("valid")
