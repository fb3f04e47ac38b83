#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # (property, claimed?, manifest extras)


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None, na=None, level='exploration',
         tech='deterministic simulation with fault injection'):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                     'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                     'observe_at': list(observe), 'hook_needed': None}}
    assert len(title) <= 80, title
    P.append((d, note, na, level, tech))


E = 'resippy/image_objects/earth_overhead/'
exec(open(os.path.join(V, 'tools', 'property_list.py')).read())

ids = [d['id'] for d, *_ in P]
assert len(ids) == len(set(ids))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        f.write(json.dumps(d) + '\n')
checks, nas = [], []
for d, note, na, level, tech in P:
    if na:
        nas.append({'property': d['id'], 'reason': na})
        continue
    if not os.path.exists(os.path.join(V, 'props', d['id'].lower() + '.py')):
        nas.append({'property': d['id'], 'reason': 'check not built yet'})
        continue
    checks.append({'property': d['id'], 'quick_cmd': 'python3 check.py ' + d['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + d['id'],
                   'evidence_file': 'evidence/%s.json' % d['id'], 'technique': tech, 'level': level,
                   'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': nas,
     'notes': 'No hooks in /repo: the seams are an LD_PRELOAD library between the process and the disk (sim/simdisk.c), a '
              'trace-driven thread scheduler (sim/sched.py) and the process environment. Repairs of defects found are the "fix:" '
              'commits in /repo, listed in known_findings.json.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(nas), 'not applicable')
