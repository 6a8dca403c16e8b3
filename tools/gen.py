#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + '/tools')
import registry
import props

TECH = 'symbolic execution of the compiled code (LLVM IR of /repo and std) with z3 deciding every branch and assertion'
with open(HERE + '/properties.jsonl', 'w') as o:
    for p in props.PROPS:
        i, title, st, over, text, why, files, mech = p
        assert len(title) <= 80, i
        o.write(json.dumps({
            'id': i, 'title': title, 'statement': st,
            'quantifier': {'over': over.split(), 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': files.split(),
                        'mechanism': [{'name': a, 'where': b} for a, b in mech]}}) + '\n')
ids = [p[0] for p in props.PROPS]
claimed = [i for i in ids if i in registry.CHECKS]
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 check.py ' + i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': TECH,
        'level': 'model_checking',
        'level_note': 'every value within the bounds: ' + registry.CHECKS[i]['bounds'],
    } for i in claimed],
    'not_applicable': [{'property': i, 'reason': props.NA[i]} for i in ids if i not in registry.CHECKS],
}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
extra = [i for i in registry.CHECKS if i not in ids]
print('%d properties, %d claimed; without a property: %s' % (len(ids), len(claimed), extra))

# ---- DESIGN.md -----------------------------------------------------------------
import re
import subprocess
from methods import M


def cell(x):
    return ' '.join(str(x).split()).replace('|', '\\|')


def cost(i):
    try:
        e = json.load(open('%s/evidence/%s.json' % (HERE, i)))
        return '%d s' % round(e['wall_s']) if e['tier'] == 'quick' else ''
    except Exception:
        return ''


caught = json.load(open(HERE + '/tools/caught.json'))
old = {}
if os.path.exists(HERE + '/tools/cost.json'):
    old = json.load(open(HERE + '/tools/cost.json'))
for i in claimed:
    c = cost(i)
    if c:
        old[i] = c
json.dump(old, open(HERE + '/tools/cost.json', 'w'), indent=0, sort_keys=True)
out = []
for p in props.PROPS:
    i, title, st, over, text, why, files, mech = p
    c = registry.CHECKS[i]
    jobs = sorted(set(j.split(':')[0] for j in c['quick']))
    out.append('**%s %s.** %s\n*Harnesses:* %s (%d jobs quick%s). *Bounds:* %s. *Why tests cannot:* %s. *Cost:* about %s.\n' % (
        i, title, M[i], ', '.join('`%s`' % j for j in jobs), len(c['quick']),
        ', %d thorough' % len(c['thorough']) if c['thorough'] else '', c['bounds'], why, old.get(i, '10 s')))
fixes = []
for l in open(HERE + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)$', l.strip())
    if m:
        fixes.append('* `%s` (%s): %s' % (m.group(2), m.group(1), m.group(3)))
bugs = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    bugs.append('| %s | %s | %s | %s |' % (d, m['property'], cell(m['needs']), cell(caught.get(d, '?'))))
t = open(HERE + '/tools/design.md').read()
t = t.replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@FIXES@@', '\n'.join(fixes)).replace('@@BUGS@@', '\n'.join(bugs))
open(HERE + '/DESIGN.md', 'w').write(t)
