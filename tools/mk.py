"""regenerate properties.jsonl, MANIFEST.json and DESIGN.md"""
import ast
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from meta import P
try:
    from meta import NA
except ImportError:
    NA = {}


def consts(id):
    t = ast.parse(open(os.path.join(HERE, 'vf/props/%s.py' % id)).read())
    out = {}
    for s in t.body:
        if isinstance(s, ast.Assign) and s.targets[0].id in (
                'BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            out[s.targets[0].id] = ast.literal_eval(s.value)
    return out


with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for id in sorted(P):
        p = P[id]
        f.write(json.dumps({
            'id': id, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [
                {'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')

checks, na, sec = [], [], []
for id in sorted(P):
    p = P[id]
    sec.append('### %s %s\n\n%s\n' % (id, p['title'], p['statement']))
    if id in NA or not os.path.exists(
            os.path.join(HERE, 'vf/props/%s.py' % id)):
        r = NA.get(id, 'check under construction')
        na.append({'property': id, 'reason': r})
        sec.append('Not claimed: %s\n' % r)
        continue
    c = consts(id)
    note = ('Bounded: %s. Outside: %s. Reals stand for floats; every '
            'counterexample is replayed on the real build before it is '
            'reported.' % (c['BOUNDS'], c['OUTSIDE']))
    if p['note']:
        note += ' ' + p['note']
    if c.get('ASSUMPTIONS'):
        note += ' Assumes: ' + '; '.join(c['ASSUMPTIONS']) + '.'
    checks.append({'property': id, 'quick_cmd': './check %s quick' % id,
                   'thorough_cmd': './check %s thorough' % id,
                   'technique': p['technique'], 'level': p['level'],
                   'level_note': note})
    sec.append('*Decided by* %s\n\n*Bounds:* %s.\n*Outside:* %s.\n*Anchors:* '
               '%s\n' % (p['design'], c['BOUNDS'], c['OUTSIDE'],
                         ', '.join('`%s`' % x for x in p['files'])))
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks in /repo. See DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
h = open(os.path.join(HERE, 'tools/design_head.md')).read()
t = open(os.path.join(HERE, 'tools/design_tail.md')).read()
t += '\n## Defects found\n\n'
t += '`fixed`: repaired by the named `fix:` commit in /repo.\n\n'
for x in open(os.path.join(HERE, 'known_findings.jsonl')):
    if x.startswith('fixed: property='):
        i, c, w = x[len('fixed: property='):].strip().split(' ', 2)
        t += '* %s, `%s`: %s\n' % (i, c, w)
    else:
        t += '* %s\n' % x.strip()
t += ('\n## Planted bugs (`seeded/`)\n\nEach was written from the text of a '
      'property, passes the test suite and is caught by the check of the '
      'property that it names.\n\n| id | caught by | needs |\n|---|---|---|'
      '\n')
for x in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', x, 'meta.json')))
    t += '| %s | %s | %s |\n' % (x, m['property'],
                                 m['needs'].replace('|', '/'))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(
    h + '\n' + '\n'.join(sec) + '\n' + t)
print(len(checks), 'checks', [x['property'] for x in na])
