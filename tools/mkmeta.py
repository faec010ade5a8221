#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

ROOT = os.path.dirname(HERE)
na = {i for i, _ in props.NOT_APPLICABLE}
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for q in props.P:
        a = {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']], 'observe_at': q['observe'], 'hook_needed': None}
        if q['state']:
            a['state'] = q['state']
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                            'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'checks': [{'property': q['id'], 'quick_cmd': './check %s --tier quick' % q['id'], 'thorough_cmd': './check %s --tier thorough' % q['id'],
                 'evidence_file': 'evidence/%s.json' % q['id'], 'technique': 'property-based testing: ' + q['oracle'],
                 'level': 'exploration', 'level_note': q['note']} for q in props.P if q['id'] not in na],
     'not_applicable': [{'property': i, 'reason': r} for i, r in props.NOT_APPLICABLE],
     'notes': 'See DESIGN.md. ./check ID --replay FILE reruns a saved failure. No hooks in /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

# ---- DESIGN.md ----
sec = ['## Properties', '']
for q in props.P:
    sec += ['### %s %s' % (q['id'], q['title']), '', '* Domain: %s.' % q['text'], '* Decided by: %s.' % q['oracle'],
            '* Observed: %s.' % '; '.join(q['observe']), '* Bounds and strength: %s' % q['note'], '* Beyond the tests: %s' % q['why']]
    if q.get('design'):
        sec += ['* ' + q['design']]
    sec += ['']
if props.NOT_APPLICABLE:
    sec += ['### Not claimed', ''] + ['* %s: %s' % x for x in props.NOT_APPLICABLE]
seeds = ['| change | property | needs | breaks | caught by (quick, seed 1) |', '|---|---|---|---|---|']
sd = os.path.join(ROOT, 'seeded')
caught = json.load(open(os.path.join(HERE, 'caught.json'))) if os.path.exists(os.path.join(HERE, 'caught.json')) else {}
for i in sorted(os.listdir(sd)):
    md = json.load(open(os.path.join(sd, i, 'meta.json')))
    seeds.append('| %s | %s | %s | %s | %s |' % (i, md['property'], md['needs'].replace('|', '/'), md['what_it_breaks'].replace('|', '/'), caught.get(i, '')))
t = open(os.path.join(HERE, 'DESIGN.in.md')).read()
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t.replace('@@PROPS@@', '\n'.join(sec).rstrip()).replace('@@SEEDS@@', '\n'.join(seeds)))
