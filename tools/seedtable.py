#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md."""
import json, os
r = os.path.join(os.path.dirname(__file__), '..', 'seeded')
print('| planted change | breaks | caught by |\n|---|---|---|')
for d in sorted(os.listdir(r)):
    m = json.load(open(f'{r}/{d}/meta.json'))
    t = m['what_it_breaks']; n = m['needs']
    print(f"| {d} | {t} ({n}) | {m.get('caught_by', m['property'])} |".replace('\n', ' '))
