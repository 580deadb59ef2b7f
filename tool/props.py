#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # (property, check or None, reason)

AI = 'static analysis: path-sensitive abstract interpretation (typestate, value provenance, affine arithmetic) of the LLVM IR resolved from the current sources'
AINOTE = ('Every path of every operator x presence x initial value x dictionary state x type configuration is interpreted '
          'abstractly and compared with a rule table written from FAST 1.1; values, lengths and stream contents stay '
          'symbolic, so one path stands for all of them. Trusted: clang lowering, the IR interpreter, the primitive '
          'summaries of libstdc++/stream transfer; paths it cannot decide are counted in the evidence, not assumed to hold.')


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech=None, note=None, level='other', na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append((d, tech and dict(property=id, quick_cmd='python3 check.py %s' % id, thorough_cmd='python3 check.py %s --thorough' % id,
                               technique=tech, level=level, level_note=note), na))


exec(open(os.path.join(V, 'tool', 'proplist.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for d, c, n in P:
        fh.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='python3 check.py --setup', checks=[c for d, c, n in P if c],
           not_applicable=[dict(property=d['id'], reason=n) for d, c, n in P if n])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
ids = [d['id'] for d, c, n in P]
assert len(ids) == len(set(ids))
for d, c, n in P:
    assert bool(c) != bool(n), d['id']
import sys
sys.path.insert(0, V)
from checks import REGISTRY
assert set(REGISTRY) == {d['id'] for d, c, n in P if c}, set(REGISTRY) ^ {d['id'] for d, c, n in P if c}
