#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    'K': 'runtime monitoring: random model programs on the real kernel, '
         'online shadow-queue trace checker',
    'L': 'runtime monitoring: random logger configurations, offline checker '
         'over the records written to every sink',
    'P': 'runtime monitoring: event recorder on real ping-pong runs, offline '
         'conservation, timing and statistical oracles',
    'C': 'runtime monitoring: recorded command-line and sweep runs compared '
         'with individual runs',
    'T': 'runtime monitoring: recorded tag-time runs checked against an '
         'independent Markov-chain reference',
    'E': 'runtime monitoring: differential oracle (independent Gen2 '
         'reference) over generated and boundary messages',
    'M': 'runtime monitoring: differential oracle (independent physics '
         'reference) over generated geometries and recorded runs',
    'G': 'runtime monitoring: lock-step reference state machine over random '
         'command and power sequences, statistical oracle',
    'R': 'runtime monitoring: online protocol monitor on the real reader '
         'under scripted replies, loss and power cycles',
    'S': 'runtime monitoring: event recorder on complete RFID runs, offline '
         'trace checkers and recounting',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE,
                                                      'properties.jsonl'))]
    have = set()
    d = os.path.join(HERE, 'checks')
    for fn in os.listdir(d):
        if fn.endswith('.py'):
            have |= set(re.findall(r"^@check\(\s*'(\w+)'",
                                   open(os.path.join(d, fn)).read(), re.M))
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in have:
            checks.append({
                'property': i,
                'quick_cmd': f'python3 run_check.py {i}',
                'thorough_cmd': f'VERIF_TIER=thorough python3 run_check.py {i}',
                'evidence_file': f'evidence/{i}.json',
                'technique': TECHNIQUE[i[0]],
                'level': 'exploration',
                'level_note': 'Held on every execution the monitor observed '
                              '(counts in the evidence file); trusts the '
                              'oracle in /verif/checks and CPython.'
            })
        else:
            na.append({'property': i,
                       'reason': 'check not built yet'})
    m = {
        'version': 1,
        'setup_cmd': 'python3 tools/setup.py',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks in /repo: the monitors attach from outside by '
                 'public attributes, so no guard is needed. Exit status 2 of '
                 'a check means inconclusive.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not claimed')


main()
