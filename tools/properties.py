#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'transform/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None, state=None, level='model_checking', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'state': state or [], 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                           'observe_at': observe or ['public API: inputs, return values, files written'], 'hook_needed': None},
                  technique=technique, note=note, level=level, na=na))


exec(open(os.path.join(V, 'tools', 'table.py')).read())

assert len({p['id'] for p in P}) == len(P)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'bin/check ' + p['id'], 'thorough_cmd': 'bin/check ' + p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'VERIF_TIER selects the tier; the commands are the same.  No hooks: everything is observed at the public interface.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
