#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from lib/meta.py and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/lib')
from meta import M, NA
from props import PROPS
def row(x): return {'id': x['pid'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'].split(','), 'text': x['text']}, 'why_tests_cant': x['why'], 'anchors': {'files': x['files'], 'mechanism': x['mech']}}
allp = sorted(M + NA, key=lambda x: x['pid'])
for x in allp:
    assert len(x['title']) <= 80, x['pid']; assert len([s for s in x['statement'].replace('e.g.', '').split('. ') if s]) <= 3, x['pid']
for x in M: assert x['pid'] in PROPS, x['pid']
for p in PROPS: assert any(x['pid'] == p for x in M), p
with open(V + '/properties.jsonl', 'w') as f:
    for x in allp: f.write(json.dumps(row(x)) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [
    {'property': x['pid'], 'quick_cmd': 'python3 check.py %s --tier quick' % x['pid'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % x['pid'],
     'technique': 'bounded symbolic execution of the LLVM IR of the real sources (own engine symx) with Z3 deciding every branch and assertion; counterexamples replayed natively',
     'level': x['level'], 'level_note': x['note'] + '. Bounds: ' + PROPS[x['pid']].get('bounds', '')} for x in sorted(M, key=lambda x: x['pid'])],
    'not_applicable': [{'property': x['pid'], 'reason': x['reason']} for x in sorted(NA, key=lambda x: x['pid'])]}
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
except (ImportError, FileNotFoundError): print('schemas not checked')

# sections 2 to 4 of DESIGN.md
import glob, textwrap
def wrap(s, ind='  '): return textwrap.fill(' '.join(s.split()), 130, initial_indent=ind, subsequent_indent=ind)
o = ['## 2. Properties: how each is decided', '']
for x in sorted(M, key=lambda x: x['pid']):
    P = PROPS[x['pid']]; q = P['runs']('quick'); t = P['runs']('thorough')
    ents = list(dict.fromkeys(i['entry'] for i in q))
    o += ['### %s %s' % (x['pid'], x['title']), '', wrap('Quantified over: ' + x['text'] + '.', ''), wrap('Decided by: ' + x['note'] + '; `h/%s`: %s; %d instances quick, %d thorough.' % (P['file'], ', '.join('`%s`' % e for e in ents), len(q), len(t)), ''),
          wrap('Bounds: ' + P.get('bounds', '') + '.', ''), wrap('Beyond tests: ' + x['why'] + '.', ''), '']
for x in sorted(NA, key=lambda x: x['pid']): o += ['### %s %s (not applicable)' % (x['pid'], x['title']), '', wrap(x['reason'], ''), '']
o += ['## 3. Findings', '', 'All are repaired by "fix:" commits in /repo, recorded in `known_findings.jsonl`; none is left open unless listed there as known.', '']
for l in open(V + '/known_findings.jsonl'):
    if l.strip(): k = json.loads(l); o.append('* %s (%s, %s) %s' % (k['id'], k['property'], k['status'], k.get('text', k.get('what', '')).replace('fixed: property=%s ' % k['property'], '')))
o += ['', '## 4. Planted bugs', '', 'Caught: the check of the named property reports a VIOLATION (confirmed by a run). "after" names what was added because the check missed it first.', '', '| planted bug | property | needs | caught |', '|---|---|---|---|']
seedres = json.load(open(V + '/lib/seeds.json'))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    s = os.path.basename(os.path.dirname(d)); j = json.load(open(d)); o.append('| %s | %s | %s | %s |' % (s, j['property'], j['needs'].replace('|', '/'), seedres.get(s, 'not run')))
D = open(V + '/DESIGN.md').read(); B, E = '<!-- generated: begin -->\n', '<!-- generated: end -->'
open(V + '/DESIGN.md', 'w').write(D[:D.index(B) + len(B)] + '\n'.join(o) + '\n' + D[D.index(E):])
