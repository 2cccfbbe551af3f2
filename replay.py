#!/opt/venv/bin/python
"""replay.py FILE: runs a recorded counterexample on the real code.
exit 1: the property is violated by this input; 0: it holds; 2: the input is outside the assumptions"""
import json
import os
import sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import env
env.setup()
from sym import harness


def main():
    with open(sys.argv[1]) as f:
        b = json.load(f)
    env.load_harnesses(b['property'])
    h = harness.REG[(b['property'], b['harness'])]
    import gpytoolbox
    st, det, c = harness.run_concrete(h, b['variant'], b['model'], gpytoolbox, b.get('tol', 1e-6), b.get('thorough', False))
    print('gpytoolbox from', gpytoolbox.__file__)
    print('property %s, harness %s%s' % (b['property'], b['harness'], b['variant']))
    print('input', json.dumps(b['model']))
    print(st, det)
    if st == 'violated':
        # a replay without tolerance is about its own check: others may differ by rounding
        return 1 if b.get('tol', 1e-6) or b['label'] in [x[0] for x in det] else 0
    return 0 if st == 'ok' else 2


sys.exit(main())
