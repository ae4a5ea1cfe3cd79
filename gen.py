#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=(), na=None):
    assert len(title) <= 80, pid
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = list(observe)
    P.append((d, technique, note))
    if na:
        NA.append(dict(property=pid, reason=na))


exec(open(os.path.join(HERE, 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + '\n')

nas = {n['property'] for n in NA}
man = dict(version=1, setup_cmd='bash /verif/tool/build.sh /verif/build',
           checks=[dict(property=d['id'], quick_cmd='python3 /verif/check.py ' + d['id'],
                        thorough_cmd='VERIF_TIER=thorough python3 /verif/check.py ' + d['id'],
                        evidence_file='evidence/%s.json' % d['id'], technique=t, level='other', level_note=n)
                   for d, t, n in P if d['id'] not in nas],
           not_applicable=NA,
           notes='All checks are one abstract interpreter (tool/) plus IR queries, driven by harness/*.c entry points; '
                 'nothing from /repo is executed.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
