#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append(
        (os.path.basename(os.path.dirname(m)), d['needs']))
for p in sorted(rows, key=lambda x: ('KLPCTEMGRS'.index(x[0]), x)):
    for i, needs in rows[p]:
        print(f'| {p} | {i} | {needs} |')
