#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run after editing; both files are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = list(observe)
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
NOMPI = 'The stable tests only cover space-filling-curve keys and tensor algebra in one process; '
exec(open(os.path.join(V, 'tools', 'props.py')).read())
NA = []
exec(open(os.path.join(V, 'tools', 'na.py')).read())
for p in P:
    assert len(p['title']) <= 80, p['id']; assert p['statement'].count('. ') <= 2, p['id']
    assert p['id'] in PLAN or p['id'] in [x['property'] for x in NA], p['id']
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
checks = []
for p in P:
    if p['id'] not in PLAN: continue
    q = PLAN[p['id']]
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
        technique='deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real sources on simulated MPI, HDF5, clocks and heap; ' + q['oracle'],
        level='exploration', level_note=q.get('note', 'sampled schedules, faults and inputs; a clean batch is evidence, not proof')))
m = dict(version=1, setup_cmd='python3 check.py build', hooks=dict(guard='none', enable='no hooks in /repo: the seams are the MPI, HDF5, FleCSI and OpenMP headers (sim/include), replaced at compile time, and libc symbols interposed by the simulator', source_commits=[]), checks=checks, not_applicable=NA,
    notes='Every check rebuilds the rank libraries from /repo\'s working tree. Replay: python3 check.py replay FILE. Determinism self test: python3 check.py selftest.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
