#!/usr/bin/env python3
"""development aid for planted changes (no check uses it).
seedtool.py make SPEC.py      write /verif/seeded/<id>/ from entries S(id, prop, file, [(old, new)...], demo, needs, breaks)
seedtool.py confirm ID...     in a scratch copy: patch applies, builds, related stable tests pass, demo passes/fails, the property's check reports it"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
SEED = '/verif/seeded'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$PWD/src:/opt/vp OMP_NUM_THREADS=1 PYTHONHASHSEED=0 MPLBACKEND=Agg exec /opt/venv/bin/python -B -W ignore "$D/demo.py"
'''
HEAD = '''import numpy as np
try:
    import vp_noext
except ImportError:
    pass
import gpytoolbox as g


'''


def make(spec):
    out = []

    def S(id, prop, file, edits, demo, needs, breaks):
        w = '/tmp/sd/mk'
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        fs = edits if isinstance(edits, dict) else {file: edits}
        for fn, es in fs.items():
            p = '%s/src/gpytoolbox/%s.py' % (w, fn)
            s = open(p).read()
            for a, b in es:
                assert s.count(a) == 1, (id, s.count(a), a)
                s = s.replace(a, b)
            open(p, 'w').write(s)
        d = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        # only original lines may change
        D = '%s/%s' % (SEED, id)
        os.makedirs(D, exist_ok=True)
        open(D + '/patch.diff', 'w').write(d)
        open(D + '/demo.sh', 'w').write(DEMO)
        os.chmod(D + '/demo.sh', 0o755)
        import textwrap
        open(D + '/demo.py', 'w').write(HEAD + textwrap.dedent(demo).strip() + '\n')
        json.dump(dict(property=prop, needs=' '.join(needs.split()), what_it_breaks=' '.join(breaks.split())), open(D + '/meta.json', 'w'), indent=1)
        shutil.rmtree(w, ignore_errors=True)
        out.append(id)
    exec(compile(open(spec).read(), spec, 'exec'), dict(S=S))
    print(' '.join(out))


def related(files):
    import glob
    rel = []
    for j in glob.glob('/tmp/cov/test_*.json'):
        if set(f for f, n in json.load(open(j)) if n != '<module>') & set(files):
            rel.append(os.path.basename(j)[:-5])
    return rel


def confirm(id):
    w = '/tmp/sd/' + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    D = '%s/%s' % (SEED, id)
    env = dict(os.environ, PYTHONPATH=w + '/src:/opt/vp', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    meta = json.load(open(D + '/meta.json'))
    res = []
    try:
        r0 = subprocess.run(['bash', D + '/demo.sh'], cwd=w, capture_output=True, text=True, timeout=300)
        res.append('demo clean %d' % r0.returncode + ('' if r0.returncode == 0 else ' !!! ' + r0.stderr[-300:]))
        a = subprocess.run(['git', 'apply', D + '/patch.diff'], cwd=w, capture_output=True, text=True)
        if a.returncode:
            return id, ['PATCH DOES NOT APPLY ' + a.stderr]
        r1 = subprocess.run(['bash', D + '/demo.sh'], cwd=w, capture_output=True, text=True, timeout=300)
        res.append('demo patched %d (%s)' % (r1.returncode, r1.stderr.strip().splitlines()[-1][:100] if r1.stderr.strip() else '') + ('' if r1.returncode else ' !!!'))
        files = [l[6:].split('src/gpytoolbox/')[1] for l in open(D + '/patch.diff').read().splitlines() if l.startswith('+++ b/')]
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        rel = [t for t in related(files) if any(x.startswith('test.%s.' % t) for x in stable)]
        if rel and '--notests' not in sys.argv:
            xml = '/tmp/sd/%s.xml' % id
            subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'vp_noext', '-p', 'no:cacheprovider', '-n', '4', '--timeout=600', '--dist', 'loadfile', '-o', 'python_functions=_none_', '-o', 'junit_family=xunit2',
                            '--junitxml=' + xml] + ['test/%s.py' % t for t in rel if t != 'test_torus'], cwd=w, env=env, capture_output=True, text=True)
            import xml.etree.ElementTree as ET
            bad, ok = [], 0
            for tc in ET.parse(xml).iter('testcase'):
                n = tc.get('classname') + '::' + tc.get('name')
                if n in stable:
                    if any(ch.tag in ('failure', 'error') for ch in tc):
                        bad.append(n)
                    else:
                        ok += 1
            res.append('tests %d ok' % ok + (' !!! FAIL %s' % bad if bad else ''))
        elif not rel:
            res.append('no related tests')
        if '--nocheck' not in sys.argv:
            c = subprocess.run([PY, '-B', '/verif/check.py', meta['property'], '--nproc', '4'], env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE='/tmp/sd/ev'), capture_output=True, text=True, cwd='/verif')
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            lab = [l for l in c.stdout.splitlines() if l.startswith('violated')]
            res.append('check exit %d %s %s' % (c.returncode, ('CAUGHT' if v else 'MISSED !!!'), (lab[0][:150] if lab else c.stdout[-300:])))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return id, res


if sys.argv[1] == 'make':
    make(sys.argv[2])
else:
    ids = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(SEED))
    os.makedirs('/tmp/sd/ev', exist_ok=True)
    with ThreadPoolExecutor(2) as ex:
        for id, res in ex.map(confirm, ids):
            print(id, '|', ' | '.join(res), flush=True)
