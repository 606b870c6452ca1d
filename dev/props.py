"""Generates properties.jsonl and MANIFEST.json from one table (development aid; both outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []       # properties
C = {}       # checks


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, level='other', na=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
    assert len(title) <= 80, title
    C[id] = (technique, note, level, na)


exec(open(os.path.join(V, 'dev', 'table.py')).read())
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in P:
    t, n, l, why = C[p['id']]
    if why:
        na.append({'property': p['id'], 'reason': why})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'],
                   'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'], 'technique': t, 'level': l, 'level_note': n})
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
