#!/usr/bin/env python3-vt
"""Checks the committed JSON files against the schemas of the task."""
import json, pathlib, sys, jsonschema
r = pathlib.Path(__file__).resolve().parent.parent
s = pathlib.Path("/root/.vp")
jsonschema.validate(json.load(open(r / "MANIFEST.json")), json.load(open(s / "MANIFEST.schema.json")))
for l in open(r / "properties.jsonl"):
    jsonschema.validate(json.loads(l), json.load(open(s / "PROPERTIES.schema.json")))
for f in (r / "evidence").glob("*.json"):
    jsonschema.validate(json.load(open(f)), json.load(open(s / "EVIDENCE.schema.json")))
print("valid")
