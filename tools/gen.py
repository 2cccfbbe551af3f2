#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and claims.py"""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path.insert(0, D)
from props import PROPS
from claims import CLAIMS, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=m, where=p['files'][0]) for m in p['mech']], hook_needed=None))) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in CLAIMS:
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python -B check.py %s --tier quick' % i, thorough_cmd='/opt/venv/bin/python -B check.py %s --tier thorough' % i,
                           technique='symbolic execution of the repository\'s Python source; z3 decides every branch and assertion over all inputs within the bounds, counterexamples replayed on the real code',
                           level='model_checking', level_note=CLAIMS[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
man = dict(version=1, setup_cmd='/opt/venv/bin/python -B setup_check.py', checks=checks, not_applicable=na)
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

# DESIGN.md
import importlib, glob, re
sys.path.insert(0, V)
sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
for f in sorted(glob.glob(V + '/harness/h_*.py')):
    importlib.import_module('harness.' + os.path.basename(f)[:-3])
from sym.harness import REG, ORDER
importlib.import_module('harness.whole').extend()
notes = {}
np_ = os.path.join(D, 'notes.md')
if os.path.exists(np_):
    for b in re.split(r'^# ', open(np_).read(), flags=re.M)[1:]:
        k, _, t = b.partition('\n')
        notes[k.strip()] = t.strip()
out = [open(os.path.join(D, 'design.md')).read().rstrip(), '', '## The properties', '']
for p in PROPS:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    out.append('')
    out.append(p['statement'])
    out.append('')
    if i not in CLAIMS:
        out.append('Not applicable: %s.' % NA.get(i, 'no check has been built for it yet'))
        out.append('')
        continue
    out.append('Code: ' + ', '.join('`%s`' % f.split('/')[-1][:-3] for f in p['files']) + '. What tests cannot reach: ' + p['why'])
    if i in notes:
        out += ['', notes[i]]
    out.append('')
    hs = [k for k in ORDER if k[0] == i]
    if i == 'U02':
        out.append('The harnesses of the other properties (%d of them, first variant) with their own assertions; each function they call is called once or twice before with other coordinates and faces in the same arrays, and the arrays it then returned are overwritten. '
                   'Left out: calls that draw random numbers or report to callbacks.' % len(hs))
    elif i == 'U01':
        out.append('The calls made by the harnesses of the other properties (%d of them, first variant), each argument compared before and after the call.' % len(hs))
    else:
        for k in hs:
            h = REG[k]
            out.append('- `%s`: %s%s' % (k[1], h.bounds, '' if len(h.quick) == len(h.thorough) and h.quick == h.thorough else ' (%d cases quick, %d thorough)' % (len(h.quick), len(h.thorough))))
    out.append('')
kf = json.load(open(V + '/known_findings.json'))
out += ['## Defects found and repaired', '', 'Each was found by (or while building) the check named, shown on the real code, and repaired in its own `fix:` commit.', '']
for f in kf['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    out.append('- %s `%s` %s' % m.groups())
if kf['findings']:
    out += ['', 'Recorded, not repaired:', '']
    for f in kf['findings']:
        out.append('- ' + json.dumps(f))
out += ['', '## Planted bugs', '']
sn = os.path.join(D, 'seeds.md')
if os.path.exists(sn):
    out += [open(sn).read().rstrip(), '']
out += ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json') + glob.glob(V + '/more_planted/*/meta.json'), key=lambda x: x.split('/')[-2]):
    d = json.load(open(m))
    out.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks'], d.get('caught_by', d['property'] + ' quick')))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
