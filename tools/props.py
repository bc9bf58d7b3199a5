#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing: python3 /verif/tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = 'metcalcpy/util/'
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, state=state))


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = p['state']
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
     'checks': [{'property': p['pid'], 'quick_cmd': f'bash /verif/run.sh {p["pid"]} quick',
                 'thorough_cmd': f'bash /verif/run.sh {p["pid"]} thorough', 'technique': p['technique'],
                 'level': 'exploration', 'level_note': p['note'],
                 'evidence_file': f'evidence/{p["pid"]}.json'} for p in P if p['technique']],
     'not_applicable': NA,
     'notes': NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties')
