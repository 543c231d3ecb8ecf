#!/usr/bin/env python3
"""DESIGN.md from its two parts and the planted bugs"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['', '| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    j = json.load(open(m)); rows.append(f"| {os.path.basename(os.path.dirname(m))} | {j.get('caught', j['property'])} | {j['what_it_breaks']} | {j['needs']} |")
t = open(f'{V}/tools/design_props.md').read().replace('@@SEEDS@@', '\n'.join(rows))
open(f'{V}/DESIGN.md', 'w').write(open(f'{V}/tools/design_head.md').read().replace('@@PROPS@@', t.strip('\n')))
