#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--only HARNESS]: decides property ID for /repo's current source"""
import json
import os
import sys
import time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import env
env.setup()
T0 = time.time()
from sym import driver, harness


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--total', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--nproc', type=int)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prop = a.prop
    env.load_harnesses(prop)
    hs = [harness.REG[k] for k in harness.ORDER if k[0] == prop]
    if a.only:
        hs = [h for h in hs if h.name in a.only.split(',')]
    if not hs:
        print('no harness for', prop)
        return 2
    known = known_findings(prop)
    for h in hs:
        h.known = set(k['label'] for k in known if k['harness'] == h.name)
    try:
        driver.load_all()
    except Exception as e:
        # a package that does not load cannot be encoded
        import traceback
        traceback.print_exc()
        print('ERROR: /repo does not load')
        return 2
    units = []
    for h in hs:
        for v in (h.quick if tier == 'quick' else h.thorough):
            units.append((h, dict(v)))
    total = a.total or (480 if tier == 'quick' else 3600)

    def log(u):
        g = u['agg']
        if a.v or True:
            st = g['stats']
            print('  %-34s %-22s paths=%d (aborted %d) obligations=%d discharged=%d queries=%d solver=%.1fs wall=%.1fs%s%s%s%s' % (
                u['h'].name, json.dumps(u['v']) if u['v'] else '', g['paths'], g['aborted'], st.get('obligations', 0), st.get('discharged', 0), st.get('queries', 0),
                st.get('solver_s', 0), g['wall'], ' UNEXPLORED=%d' % len(u['stack']) if u['stack'] else '',
                ' UNSUPPORTED=%s' % g['unsupported'] if g['unsupported'] else '',
                ' INCONCLUSIVE=%s' % g['inconclusive'] if g['inconclusive'] else '',
                (' EXC=%s' % g['exceptions'] if g['exceptions'] else '') + (' BADTRACE=%d %s' % (len(g['traces_bad']), str(g['traces_bad'][:1])[:300]) if g['traces_bad'] else '') + (' CRASH=%s' % g['crashes'][:2] if g['crashes'] else '') + (' uncertain=%d' % g['uncertain'] if g['uncertain'] else '')), flush=True)
    U, found = driver.explore_units(units, seed, tier, total, log, a.nproc)
    narrow = []
    if not found:
        stuck = [u for u in U if not conclusive(u)]
        if stuck:
            narrow, found = driver.narrowed(stuck, seed, tier, nproc=a.nproc, log=log if a.v else None, total=120 if tier == 'quick' else 600)
            print('  narrowed runs of %d cases: %d paths, %d obligations, %d discharged' % (len(stuck), sum(u['agg']['paths'] for u in narrow), sum_stats(narrow)['obligations'], sum_stats(narrow)['discharged']))
    # known findings are re-demonstrated on the real code
    kf = []
    import gpytoolbox
    for k in known:
        h = harness.REG[(prop, k['harness'])]
        st, det, c = harness.run_concrete(h, k.get('variant', {}), k['model'], gpytoolbox)
        if st == 'violated':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            kf.append(k['what'])
    rc = 0
    if found:
        u, f = found
        rel = f['path']
        print('counterexample: harness %s, %s' % (u['h'].name, f['label']))
        print(f['out'].rstrip())
        print('VIOLATION property=%s replay=%s' % (prop, rel))
        rc = 1
    bad_units = [u for u in U if not conclusive(u)]
    if rc == 0:
        for u in bad_units:
            print('INCONCLUSIVE: harness %s %s: %s' % (u['h'].name, u['v'], why(u)))
        if len(bad_units) == len(U) and all(not u['agg']['reached'] for u in U):
            print('ERROR: nothing could be decided')
            rc = 2
    write_evidence(prop, tier, seed, U, found, kf)
    tot = sum_stats(U)
    print('%s %s: %d harness cases, %d paths, %d obligations (%d discharged), %d queries, %.1f s in the solver, %.1f s wall -> %s' % (
        prop, tier, len(U), sum(u['agg']['paths'] for u in U), tot['obligations'], tot['discharged'], tot['queries'], tot['solver_s'], time.time() - T0,
        {0: 'held' + (' (%d cases inconclusive)' % len(bad_units) if bad_units else ''), 1: 'VIOLATED', 2: 'no answer'}[rc]))
    return rc


def why(u):
    g = u['agg']
    out = []
    if not g['reached']:
        out.append('no path reached the assertion')
    if g['reached'] and not g['witnessed']:
        out.append('no concrete witness of a path that reaches the assertion')
    if g['unexplored'] or u['stack']:
        out.append('%d branches unexplored at the time limit' % g['unexplored'])
    for k in ('unsupported', 'exceptions', 'inconclusive'):
        if g[k]:
            out.append('%s: %s' % (k, dict(list(g[k].items())[:3])))
    if g['crashes']:
        out.append('crashes: %s' % g['crashes'][:2])
    if g['traces_bad']:
        out.append('path witnesses disagree with the real code: %s' % (g['traces_bad'][:1],))
    return '; '.join(out)


def conclusive(u):
    g = u['agg']
    return bool(g['reached'] and g['witnessed'] and not g['unexplored'] and not g['unsupported'] and not g['exceptions'] and not g['inconclusive'] and not g['crashes'] and not g['traces_bad'])


def sum_stats(U):
    t = {'obligations': 0, 'discharged': 0, 'queries': 0, 'solver_s': 0.0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'syntactic': 0, 'max_query_s': 0.0}
    for u in U:
        for k, v in u['agg']['stats'].items():
            if k == 'max_query_s':
                t[k] = max(t[k], v)
            else:
                t[k] = t.get(k, 0) + v
    return t


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def write_evidence(prop, tier, seed, U, found, kf):
    t = sum_stats(U)
    cover = sorted(set().union(*[u['agg']['cover'] for u in U])) if U else []
    assumed = sorted(set().union(*[u['agg']['assumed'] for u in U])) if U else []
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(u['agg']['paths'] for u in U),
            'transitions': sum(u['agg']['decisions'] for u in U),
            'traces_validated_against_impl': sum(u['agg']['traces_ok'] for u in U),
            'samples': [s for u in U for s in u['agg']['samples'][:1]][:12],
            'meaning': 'states = symbolic paths explored to their end; transitions = symbolic branch decisions taken on them; traces = solver witnesses of paths replayed on the real code with agreement',
            'exhaustive_within_bounds': all(conclusive(u) for u in U) and not found,
            'functions_encoded': ['%s:%s' % c for c in cover],
            'bounds': {('%s %s' % (u['h'].name, json.dumps(u['v']) if u['v'] else '')).strip(): u['h'].bounds for u in U},
            'obligations': t['obligations'], 'discharged': t['discharged'], 'discharged_by_normalisation': t['syntactic'],
            'queries': t['queries'], 'queries_sat': t['sat'], 'queries_unsat': t['unsat'], 'queries_unknown': t['unknown'],
            'solver_s': round(t['solver_s'], 3), 'max_query_s': round(t['max_query_s'], 3),
            'cases': [{
                'harness': u['h'].name, 'variant': u['v'], 'paths': u['agg']['paths'], 'infeasible': u['agg']['aborted'], 'reached_assertion': u['agg']['reached'],
                'witnessed': u['agg']['witnessed'], 'assertions': u['agg']['labels'], 'unexplored': u['agg']['unexplored'], 'conclusive': conclusive(u),
                'inconclusive_because': None if conclusive(u) else why(u), 'wall_s': round(u['agg']['wall'], 2)} for u in U],
            'known_findings': kf,
        },
        'assumptions': assumed + ['floating-point numbers are treated as exact reals (rounding is outside the claim); counterexamples are replayed in floating point',
                                  'numpy, scipy and random generators are replaced by the models in sym/; each model follows the documented behaviour'],
        'wall_s': round(time.time() - T0, 2),
        'violations': 1 if found else 0,
    }
    d = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
