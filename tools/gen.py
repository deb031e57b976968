#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from props import PROPS
from checks import CHECKS
import jsonschema
rows, checks, na = [], [], []
for p in PROPS:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    for f in p['files']:
        assert os.path.exists(os.path.join('/repo', f)), f
    rows.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])))
    if p['claim'] and p['id'] in CHECKS:
        checks.append(dict(property=p['id'], quick_cmd='python3 run.py check %s' % p['id'], thorough_cmd='python3 run.py check %s --tier thorough' % p['id'],
                           technique=p['technique'], level=CHECKS[p['id']]['level'], level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p['reason'] or 'no check yet'))
assert not set(CHECKS) - {p['id'] for p in PROPS}, set(CHECKS) - {p['id'] for p in PROPS}
assert len({p['id'] for p in PROPS}) == len(PROPS)
import subprocess
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%H', '--grep=^NATIVE_MODEL_CHECKING:', '482f4f9..HEAD'], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
m = dict(version=1, setup_cmd='python3 run.py setup', hooks=dict(guard='NATIVE_MODEL_CHECKING', enable='-DNATIVE_MODEL_CHECKING in the build flavour "sched" of run.py (concurrent classes): smaller initial constants of ConcurrentHashMap, no other change', source_commits=hooks),
         checks=checks, not_applicable=na,
         notes='Every check explores the code of /repo\'s working tree, compiled by run.py into /verif/build.')
sp = json.load(open('/root/.vp/PROPERTIES.schema.json')); sm = json.load(open('/root/.vp/MANIFEST.schema.json'))
for r in rows: jsonschema.validate(r, sp)
jsonschema.validate(m, sm)
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
from oracles import O
design = open(os.path.join(V, 'DESIGN.md')).read()
a, b = '<!-- properties: written by tools/gen.py -->\n', '<!-- end of properties -->\n'
text = ''
for p in PROPS:
    o, out = O[p['id']]
    text += '**%s** %s.\n' % (p['id'], p['title'])
    text += '*Enumerated:* %s (in brackets: thorough). ' % p['text'].replace(';', ',')
    text += '*Oracle:* %s *Why not the tests:* %s' % (o, p['why'])
    text += (' *Left open:* ' + out if out else '') + '\n\n'
if a in design:
    design = design[:design.index(a) + len(a)] + '\n' + text + design[design.index(b):]
    open(os.path.join(V, 'DESIGN.md'), 'w').write(design)
print(len(rows), 'properties,', len(checks), 'checks,', len(na), 'not claimed')
