#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
SOURCE_COMMITS = []


def prop(id, title, statement, text, why, files, mech, level='proof', note='', over=('inputs',), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    P[-1]['_level'], P[-1]['_note'], P[-1]['_na'] = level, note, na


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

P.sort(key=lambda p: p['id'])
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith('_')}
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q) + '\n')
        if p['_na']:
            na.append(dict(property=p['id'], reason=p['_na']))
            continue
        base = ('Deductive verification of the compiled real sources: requires/ensures/frame contracts and loop bounds discharged for all inputs by CBMC (SAT); '
                if p['_level'] == 'proof' else
                'Contracts on the compiled real sources discharged by CBMC (SAT) for all inputs within the container-size bounds named in the evidence (bounded, not counted as proof); ')
        checks.append(dict(property=p['id'], quick_cmd='python3 engine/vf.py check ' + p['id'],
                           thorough_cmd='VERIF_TIER=thorough python3 engine/vf.py check ' + p['id'],
                           technique='contract-based deductive verification (function contracts on /repo code, CBMC back end)',
                           level=p['_level'], level_note=base + p['_note'] +
                           ' Trusted: clang IR, engine/ir2c translation, CBMC, Abseil stand-in headers; allocation does not fail.'))
m = dict(version=1, setup_cmd='python3 engine/vf.py setup', hooks=dict(guard='none', enable='no hooks are needed', source_commits=SOURCE_COMMITS),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'claimed')
