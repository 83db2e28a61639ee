#!/usr/bin/env python3
"""Generates FAMILIES.md from the evidence of a complete run of the quick checks."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
title = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); title[p['id']] = p['title']
o = ['# Families of the quick checks', '', 'Generated by tools/families.py from the evidence of a run.', '']
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    e = json.load(open(f)); c = e['coverage']
    assert e['tier'] == 'quick', f
    o += ['## %s: %s' % (e['property'], title[e['property']]), '',
          '%d executions, %d transitions, %d states, %d comparisons.' % (c['evaluations'], c['transitions'], c['states'], c['comparisons_with_reference']), '',
          '| family | executed, within |', '|---|---|']
    o += ['| %s | %s |' % (x['family'], x['bound'].replace('|', '\\|')) for x in c['families']]
    o += ['']
open(V + '/FAMILIES.md', 'w').write('\n'.join(o))
