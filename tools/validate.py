#!/usr/bin/env python3-vt
import json, jsonschema, glob, os
V='/verif'; S='/root/.vp/'
ld=lambda p: json.load(open(p))
jsonschema.validate(ld(f'{V}/MANIFEST.json'), ld(S+'MANIFEST.schema.json'))
for l in open(f'{V}/properties.jsonl'): jsonschema.validate(json.loads(l), ld(S+'PROPERTIES.schema.json'))
for p in glob.glob(f'{V}/evidence/*.json'): jsonschema.validate(ld(p), ld(S+'EVIDENCE.schema.json')); 
print('valid')
