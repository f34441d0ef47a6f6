#!/usr/bin/env python3-vt
"""Validates the committed documents against the schemas (run with python3-vt)."""
import json, os, sys, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
def val(doc, schema, name):
    global bad
    for e in jsonschema.Draft202012Validator(schema).iter_errors(doc):
        bad += 1
        print(name, list(e.path), e.message[:300])
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open(f'{V}/properties.jsonl'):
    d = json.loads(l); ids.append(d['id']); val(d, s, d['id'])
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/' + f): bad += 1; print(d['id'], 'no file', f)
m = json.load(open(f'{V}/MANIFEST.json'))
val(m, json.load(open('/root/.vp/MANIFEST.schema.json')), 'MANIFEST')
claimed = [c['property'] for c in m['checks']] + [n['property'] for n in m.get('not_applicable', [])]
if sorted(claimed) != sorted(ids): bad += 1; print('claimed', set(claimed) ^ set(ids))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir(f'{V}/evidence')):
    val(json.load(open(f'{V}/evidence/{f}')), e, f)
sys.exit(bool(bad))
