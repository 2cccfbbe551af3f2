"""Explores all paths of all harnesses of a property with a pool of processes."""
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', '8'))

SYMG = None
REALG = None
COVER = {}


def load_all():
    """the symbolic package and the real one, once, before the workers are forked"""
    global SYMG, REALG
    from . import loader
    start_cover()
    SYMG = loader.load_symbolic()
    import gpytoolbox
    assert os.path.realpath(gpytoolbox.__file__).startswith(os.path.realpath(os.path.join(REPO, 'src'))), gpytoolbox.__file__
    REALG = gpytoolbox


def start_cover():
    """which functions of the package the symbolic execution enters"""
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, 'verif')
    except ValueError:
        return
    src = os.path.join(REPO, 'src')

    def on_start(code, off):
        if code.co_filename.startswith(src) and code.co_name != '<module>' and RECORD[0]:
            COVER[(os.path.relpath(code.co_filename, src), code.co_qualname)] = True
        if not RECORD[0] and code.co_filename.startswith(src):
            return None
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, on_start)
    mon.set_events(tid, mon.events.PY_START)


RECORD = [False]


# --------------------------------------------------------------------------------------------------
def replay_subprocess(prop, name, variant, model, label, tol, tag, thorough=False, timeout=150):
    """runs the model on the real code in a fresh process. -> path of the replay file if it violates"""
    d = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, harness=name, variant=variant, model=model, label=label, tol=tol, thorough=thorough)
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, 'replay_%s_%s_%s.json' % (prop, name, h))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    try:
        r = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'replay.py'), path], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'replay timed out'
    if r.returncode == 1 and 'violated' in r.stdout:
        with open(path, 'w') as f:
            body['observed'] = r.stdout[-4000:]
            json.dump(body, f, indent=1)
        return path, r.stdout
    os.unlink(path)
    return None, r.stdout + r.stderr[-500:]


def run_path(h, variant, prefix, deadline, stats, seed, unit):
    from . import core, explore, harness, textio
    core.reset_atoms()
    textio.reset()
    cfg = dict(h.cfg or {}, div0=os.environ['VERIF_DIV0']) if os.environ.get('VERIF_DIV0') else h.cfg
    ctx = explore.Ctx(cfg, prefix, stats, deadline, seed)
    core.set_ctx(ctx)
    c = harness.SymC(SYMG, ctx, unit)
    out = {'status': 'done', 'msg': None, 'found': None}
    RECORD[0] = True
    try:
        try:
            harness.run(h, c, variant)
        except Exception as e:
            RECORD[0] = False
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [fr for fr in tb if fr.filename.startswith(os.path.join(REPO, 'src'))]
            msg = 'raises %s: %s' % (type(e).__name__, str(e)[:200])
            if os.environ.get('VERIF_TRACE'):
                traceback.print_exc()
            if not inrepo:
                last = tb[-1]
                out['status'] = 'unsupported'
                out['msg'] = 'harness: %s (%s:%s)' % (msg, os.path.basename(last.filename), last.lineno)
            else:
                m = c.model(10.0)
                out['msg'] = msg + ' at %s:%s' % (os.path.basename(inrepo[-1].filename), inrepo[-1].lineno)
                if m is not None:
                    c.checked += 1
                    try:
                        c.report('raises', [m])
                    finally:
                        out['status'] = 'exception'
                else:
                    out['status'] = 'exception'
    except core.PathAbort:
        out['status'] = 'abort'
    except core.Unsupported as e:
        out['status'] = 'unsupported'
        out['msg'] = str(e)
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
    except core.BudgetExceeded:
        out['status'] = 'budget'
    except harness.Found as e:
        out['status'] = 'found'
        out['found'] = (e.label, e.info)
    except RecursionError as e:
        out['status'] = 'unsupported'
        out['msg'] = 'recursion'
    RECORD[0] = False
    out['model'] = None
    wit = unit.get('witness', 0)
    if out['status'] in ('done', 'exception') and c.checked and wit > 0:
        try:
            out['model'] = c.model(unit.get('model_timeout', 5.0))
        except core.PathAbort:
            out['status'] = 'abort'
        except core.BudgetExceeded:
            pass
    elif out['status'] == 'unsupported' and wit > 0:
        # a concrete run of what the encoding cannot follow: no verdict, but a failure would be real
        try:
            out['model'] = c.model(2.0)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
    out['checked'] = c.checked
    out['inputs'] = [n for n, k, a in ctx.inputs if k == 'f']
    out['labels'] = dict(c.labels)
    out['inconclusive'] = c.inconclusive[:20]
    out['pending'] = ctx.pending
    out['decisions'] = len(ctx.trail)
    out['forks'] = len(ctx.trail) - len(prefix)
    out['assumed'] = sorted(ctx.assumed)
    out['events'] = sorted(ctx.events)
    out['uncertain'] = ctx.uncertain
    core.set_ctx(core._NullCtx())
    return out


def work(task):
    """DFS from a prefix for a time slice"""
    from . import explore, harness
    h = harness.REG[tuple(task['h'])]
    stats = explore.Stats()
    COVER.clear()
    sys.monitoring.restart_events()
    stack = [task['prefix']]
    res = {'paths': 0, 'aborted': 0, 'decisions': 0, 'unsupported': {}, 'exceptions': {}, 'inconclusive': {}, 'labels': {},
           'reached': 0, 'assumed': set(), 'found': None, 'traces_ok': 0, 'traces_bad': [], 'traces_skip': 0, 'samples': [], 'budget': False, 'maxdepth': 0, 'witnessed': 0, 'uncertain': 0, 'inputs': set()}
    t_end = time.time() + task['slice']
    deadline = task['deadline']

    def replay(label, models, tol=None):
        if h.known and label in h.known:
            return None
        for m in models:
            p, o = replay_subprocess(h.prop, h.name, task['variant'], m, label, h.cfg.get('tol', 1e-6) if tol is None else tol, '', task['tier'] == 'thorough')
            if p:
                return {'path': p, 'out': o, 'model': m}
        if os.environ.get('VERIF_TRACE'):
            print('UNREPRODUCED', label, models, o, file=sys.stderr)
        return None
    wit = task['witness']
    while stack:
        if res['paths'] and time.time() > t_end:
            break
        if time.time() > deadline:
            res['budget'] = True
            break
        prefix = stack.pop()
        unit = {'replay': replay, 'witness': wit, 'tier': task['tier'], 'pin': task.get('pin')}
        o = run_path(h, task['variant'], prefix, deadline, stats, task['seed'], unit)
        if o['status'] == 'budget':
            res['inputs'] |= set(o['inputs'])
            stack.append(prefix)
            res['budget'] = True
            break
        res['paths'] += 1
        res['decisions'] += max(o['forks'], 0)
        res['maxdepth'] = max(res['maxdepth'], o['decisions'])
        res['inputs'] |= set(o['inputs'])
        res['assumed'] |= set(o['assumed'])
        res['uncertain'] += bool(o['uncertain'])
        stack.extend(o['pending'])
        for l, n in o['labels'].items():
            res['labels'][l] = res['labels'].get(l, 0) + n
        for l, w in o['inconclusive']:
            k = l + ': ' + w
            res['inconclusive'][k] = res['inconclusive'].get(k, 0) + 1
        if o['status'] == 'abort':
            res['aborted'] += 1
            continue
        if o['status'] == 'unsupported':
            res['unsupported'][o['msg']] = res['unsupported'].get(o['msg'], 0) + 1
        elif o['status'] == 'exception':
            res['exceptions'][o['msg']] = res['exceptions'].get(o['msg'], 0) + 1
        if o['status'] == 'found':
            res['found'] = {'label': o['found'][0], **o['found'][1]}
            break
        if o['status'] == 'done' and o['checked']:
            res['reached'] += 1
        if o['model'] is not None:
            if o['status'] == 'done':
                res['witnessed'] += 1
            st, det, cc = harness.run_concrete(h, task['variant'], o['model'], REALG, max(1e-4, h.cfg.get('tol', 1e-6)), task['tier'] == 'thorough')
            if len(res['samples']) < 2:
                res['samples'].append({'harness': h.name, 'variant': task['variant'], 'path_decisions': o['decisions'], 'witness': o['model'], 'real_code': st})
            if st == 'ok':
                wit -= 1
                if o['status'] == 'done':
                    res['traces_ok'] += 1
            elif st == 'violated':
                bad = det[0]
                known = h.known and bad[0] in h.known
                p, oo = (None, None) if known else replay_subprocess(h.prop, h.name, task['variant'], o['model'], bad[0], max(1e-4, h.cfg.get('tol', 1e-6)), '', task['tier'] == 'thorough')
                if known:
                    pass
                elif p and o['status'] == 'unsupported':
                    res['found'] = {'label': bad[0], 'path': p, 'out': oo, 'model': o['model']}
                    break
                else:
                    if p:
                        os.unlink(p)
                    res['traces_bad'].append([bad[0], str(bad[1])[:300], o['model']])
            else:
                res['traces_skip'] += 1
                if res['traces_skip'] > 6:
                    wit -= 1
    res['pending'] = stack
    res['stats'] = stats.as_dict()
    res['cover'] = sorted(COVER)
    return res


def worker_main(conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    lim = int(os.environ.get('VERIF_MEM_GB', '5')) << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        try:
            r = work(task)
        except MemoryError:
            r = {'crash': 'out of memory'}
        except BaseException as e:
            r = {'crash': '%s: %s' % (type(e).__name__, traceback.format_exc()[-800:])}
        conn.send(r)


class Worker:
    def __init__(self, ctx):
        self.ctx = ctx
        self.start()

    def start(self):
        self.conn, child = self.ctx.Pipe()
        self.p = self.ctx.Process(target=worker_main, args=(child,), daemon=True)
        self.p.start()
        child.close()
        self.task = None
        self.t0 = 0

    def kill(self):
        try:
            self.p.kill()
            self.p.join(5)
        except Exception:
            pass
        self.conn.close()


def narrowed(U, seed, tier, each=24, total=150, nproc=None, log=None):
    """a case the solver could not settle is decided again with all but one or two of its real inputs fixed, several times over:
    a violation found that way is as real as any other; the case stays inconclusive otherwise"""
    import random
    r = random.Random(seed)
    units = []
    for u in U:
        names = sorted(u['agg']['inputs'])
        if not names:
            continue
        for k in range(each):
            free = tuple(r.sample(names, min(len(names), 1 + (k % 3 == 2))))
            units.append((u['h'], u['v'], (r.randrange(1 << 20) * 4 + k % 4, free)))
    r.shuffle(units)
    return explore_units(units, seed, tier, total, log, nproc, 12)


def explore_units(units, seed, tier, total, log=None, nproc=None, budget=None):
    """units: [(Harness, variant)] -> list of aggregated results"""
    ctx = mp.get_context('fork')
    from multiprocessing.connection import wait
    nproc = nproc or NPROC
    t0 = time.time()
    hard = t0 + total
    U = []
    for h, v, *pin in units:
        U.append({'h': h, 'v': v, 'pin': pin[0] if pin else None, 'stack': deque([[]]), 'running': 0, 'deadline': None, 'res': None, 'done': False,
                  'agg': {'paths': 0, 'aborted': 0, 'decisions': 0, 'unsupported': {}, 'exceptions': {}, 'inconclusive': {}, 'labels': {},
                          'reached': 0, 'assumed': set(), 'found': None, 'traces_ok': 0, 'traces_bad': [], 'traces_skip': 0, 'samples': [], 'unexplored': 0, 'maxdepth': 0, 'crashes': [], 'cover': set(), 'stats': {}, 'witnessed': 0, 'uncertain': 0, 'wall': 0.0, 'inputs': set()}})
    workers = [Worker(ctx) for _ in range(min(nproc, 64))]
    found = None
    try:
        while True:
            now = time.time()
            # assign
            for w in workers:
                if w.task is not None:
                    continue
                # a unit with work: fewest running first, then in order
                best = None
                for u in U:
                    if u['stack'] and not u['done'] and (u['deadline'] is None or now < u['deadline']) and now < hard:
                        if best is None or u['running'] < best['running']:
                            best = u
                if best is None:
                    continue
                u = best
                if u['deadline'] is None:
                    u['deadline'] = min(now + (budget or u['h'].budget), hard)
                    u['t0'] = now
                prefix = u['stack'].pop()
                few = len(u['stack']) < 2 * nproc
                task = {'h': (u['h'].prop, u['h'].name), 'variant': u['v'], 'prefix': prefix, 'slice': 0.25 if few else 3.0,
                        'deadline': u['deadline'], 'seed': seed, 'tier': tier, 'pin': u['pin'], 'witness': max(0, 3 - u['agg']['traces_ok'])}
                w.task = u
                w.prefix = prefix
                w.t0 = now
                u['running'] += 1
                w.conn.send(task)
            busy = [w for w in workers if w.task is not None]
            if not busy:
                break
            ready = wait([w.conn for w in busy], timeout=1.0)
            for w in busy:
                if w.conn in ready:
                    try:
                        r = w.conn.recv()
                    except (EOFError, OSError):
                        r = {'crash': 'worker died'}
                    u = w.task
                    w.task = None
                    u['running'] -= 1
                    if 'crash' in r:
                        u['agg']['crashes'].append(r['crash'])
                        w.kill()
                        w.start()
                        continue
                    merge(u, r)
                    if r['found'] and found is None:
                        found = (u, r['found'])
                elif time.time() > w.task['deadline'] + 25:
                    u = w.task
                    u['running'] -= 1
                    u['agg']['crashes'].append('solver did not stop at its deadline')
                    u['agg']['unexplored'] += 1
                    w.kill()
                    w.start()
            if found:
                break
            for u in U:
                if not u['done'] and u['deadline'] is not None and not u['running'] and (not u['stack'] or time.time() >= u['deadline']):
                    u['done'] = True
                    u['agg']['wall'] = time.time() - u['t0']
                    if log:
                        log(u)
    finally:
        for w in workers:
            w.kill()
    for u in U:
        u['agg']['unexplored'] += len(u['stack'])
    return U, found


def merge(u, r):
    a = u['agg']
    for k in ('paths', 'aborted', 'decisions', 'reached', 'traces_ok', 'traces_skip', 'witnessed', 'uncertain'):
        a[k] += r[k]
    for k in ('unsupported', 'exceptions', 'inconclusive', 'labels'):
        for x, n in r[k].items():
            a[k][x] = a[k].get(x, 0) + n
    a['assumed'] |= r['assumed']
    a['inputs'] |= r['inputs']
    a['cover'] |= set(map(tuple, r['cover']))
    a['maxdepth'] = max(a['maxdepth'], r['maxdepth'])
    a['traces_bad'].extend(r['traces_bad'])
    if len(a['samples']) < 2:
        a['samples'].extend(r['samples'][:2 - len(a['samples'])])
    for k, v in r['stats'].items():
        if k == 'max_query_s':
            a['stats'][k] = max(a['stats'].get(k, 0), v)
        else:
            a['stats'][k] = a['stats'].get(k, 0) + v
    if r['found']:
        a['found'] = r['found']
    for p in r['pending']:
        u['stack'].append(p)
