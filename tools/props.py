#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
REAL = 'Machine arithmetic is treated as mathematical (doubles as reals, indices as unbounded integers); logging, timers and OpenMP pragmas are dropped from the extracted text.'


def prop(id, title, statement, over, qtext, why, files, mech, note, level='proof', technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, level=level,
                  technique=technique or 'contract-based deductive verification: per-function contracts on the real code, discharged by rational normal form + z3 + cvc5'))


exec(open(os.path.join(R, 'tools', 'props_table.py')).read())
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}) + '\n')
    for (id, title, statement, over, qtext, why, files, mech, reason) in NA:
        f.write(json.dumps({'id': id, 'title': title, 'statement': statement,
                            'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                            'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt av/run.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3-vt av/run.py %s --tier thorough' % p['id'],
                 'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] + ' ' + REAL} for p in P],
     'not_applicable': [{'property': n[0], 'reason': n[-1]} for n in NA],
     'notes': 'No hooks in /repo; the commits there are fix: commits only. See DESIGN.md.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
