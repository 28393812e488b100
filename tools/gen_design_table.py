#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md (seeded/*/meta.json)."""
import json, glob, os
rows=[]
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__),'..','seeded','*','meta.json'))):
    m=json.load(open(f)); rows.append((m['property'],os.path.basename(os.path.dirname(f)),m['needs']))
print('| property and check | planted change | manifests with |'); print('|---|---|---|')
for p,i,n in sorted(rows): print(f'| {p} | `{i}` | {n} |')
