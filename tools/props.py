#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = lambda *n: ['src/c/' + x for x in n]
P = lambda *n: ['src/cpp/' + x for x in n]
F = lambda *n: ['src/fortran/' + x for x in n]
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                  'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                              'observe_at': observe or ['return value'], 'hook_needed': None}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'python3 check.py ' + id,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + id,
                       'technique': technique, 'level': 'other', 'level_note': note})


ABS = 'static analysis: abstract interpretation of GIMPLE (Taylor models, intervals, rounding bounds) against a reference expansion'
ACCNOTE = ('Sound up to the assumed libm error (1-2 ulp), the GIMPLE front end and the transfer functions; alarms are raised '
           'only when the systematic difference exceeds the tolerance or the rigorous bound exceeds 8x the tolerance. ')
exec(open(os.path.join(V, 'tools', 'proptext.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': 'bash build.sh', 'checks': CHECKS, 'not_applicable': NA,
           'notes': 'All checks are static: they lower the current sources of /repo and analyse them; nothing of /repo is executed.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
