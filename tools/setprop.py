#!/usr/bin/env python3
"""setprop.py ID OLD NEW: edit one statement of properties.jsonl."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
rows = [json.loads(x) for x in open(p)]
i, old, new = sys.argv[1:]
r = next(r for r in rows if r['id'] == i)
assert r['statement'].count(old) == 1, r['statement']
r['statement'] = r['statement'].replace(old, new)
with open(p, 'w') as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
