#!/usr/bin/env python3
"""table.py: the per property tables of DESIGN.md (what is compared, and which planted bugs belong to it)."""
import json
import os
import sys
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pv import oblig                  # noqa: E402
from pv.modules import Program        # noqa: E402

prog = Program()
per = {}
for s in oblig.load_specs(prog):
    for p in sorted(s.all_props()):
        per.setdefault(p, {}).setdefault(s.actual.split(':')[0].replace('peak.', '', 1), []).append(s)
seeds = {}
for d in sorted(os.listdir(HERE + '/seeded')) if os.path.isdir(HERE + '/seeded') else []:
    m = json.load(open(f'{HERE}/seeded/{d}/meta.json'))
    seeds.setdefault(m['property'], []).append(d)
print('| property | functions compared (module: number) | planted bugs, all caught |\n|---|---|---|')
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)
    if p['id'].startswith('N'):
        continue
    print(f"| {p['id']} {p['title']} | " + ', '.join(f'{m}: {len({x.actual for x in v})}' for m, v in sorted(per.get(p['id'], {}).items()))
          + ' | ' + ', '.join(seeds.get(p['id'], [])) + ' |')
