#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place for both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, level='model_checking', state=(), na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state, na=na, observe=observe))


exec(open(os.path.join(ROOT, 'tools', 'properties.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                        'observe_at': list(p['observe']) or ['gkc command line'], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': 'GKC_VERIF', 'enable': 'no hook is compiled into /repo: the checks build /repo/**.c as they are (lib/vf.py build)', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in P:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': f"./run.sh {p['id']}", 'thorough_cmd': f"./run.sh {p['id']} thorough",
                        'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
