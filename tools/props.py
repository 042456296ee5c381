#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level='proof', note='',
         technique=None):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=['putting_dune/' + f for f in files], mechanism=mechanism, level=level,
                note=note, technique=technique))


exec(open(os.path.join(ROOT, 'tools', 'list.py')).read())

TECH = ('contract-based deductive verification: contracts on the functions of /repo, verification '
        'conditions generated from the current source on every run, discharged by z3 (cvc5 as '
        'second opinion); the same contracts executed on the real code for replay')
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
  for p in P:
    f.write(json.dumps(dict(
        id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], mechanism=[
            dict(name=m.split('@')[0], where=m.split('@')[1]) for m in p['mechanism']]))) + '\n')
    assert len(p['title']) <= 80, p['id']
man = dict(
    version=1,
    setup_cmd="python3-vt -c 'import z3, cvc5' && /opt/venv/bin/python -c 'import numpy'",
    checks=[dict(property=p['id'], quick_cmd='./check.py %s --tier quick' % p['id'],
                 thorough_cmd='./check.py %s --tier thorough' % p['id'],
                 technique=p['technique'] or TECH, level=p['level'], level_note=p['note'])
            for p in P if p['level'] != 'not-applicable'],
    not_applicable=[dict(property=p['id'], reason=p['note'])
                    for p in P if p['level'] == 'not-applicable'])
if HOOKS:
  man['hooks'] = HOOKS
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
