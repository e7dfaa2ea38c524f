"""Seeded search, confirmation, minimisation, replay and evidence."""

import collections
import copy
import gc
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUTDIR = os.path.join(ROOT, 'out')
KNOWN = os.path.join(ROOT, 'known_findings.txt')

_now = time.monotonic  # the real clock: bound before the seams are installed


class Out:
    """what one simulated scenario did"""

    def __init__(self):
        self.viol = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sim_s = 0.0
        self.digests = []
        self.sig = []
        self.nontrivial = False
        self.runs = 0
        self.evals = 0
        self.lines = 0
        self.switches = None  # recorded schedule, if any
        self.inter = None  # identity of the interleaving

    def add_world(self, w, clients=()):
        self.faults.update(w.faults)
        self.probes.update(w.probes)
        self.sim_s += w.clock.mono - 1000.0
        self.lines += w.lines
        self.digests.append(w.digest())
        for c in clients:
            self.runs += len(c.runs)
            self.evals += sum(len(r.evals) for r in c.runs)
        if w.sched is not None:
            self.switches = list(w.sched.switches)
            h = hashlib.sha1(
                repr([(s, t[1]) for s, t in zip(w.sched.sites, w.sched.switches)])
                .encode()
            )
            self.inter = h.hexdigest()[:16]
            self.probes['context_switches'] += len(w.sched.switches)
            self.probes['preemption_points'] += w.sched.step

    @property
    def digest(self):
        return hashlib.sha1(repr(self.digests).encode()).hexdigest()[:16]

    def light(self):
        return {
            'viol': self.viol,
            'faults': self.faults,
            'probes': self.probes,
            'sim_s': self.sim_s,
            'digest': self.digest,
            'sig': hashlib.sha1(repr(self.sig).encode()).hexdigest()[:12],
            'nontrivial': self.nontrivial,
            'runs': self.runs,
            'evals': self.evals,
            'lines': self.lines,
            'switches': self.switches if self.viol else None,
            'inter': self.inter,
        }


class HarnessError(Exception):
    pass


DIED = 'worker died without an answer'


# --------------------------------------------------------------------------
# executing scenarios


def run_scenario(prop, sc):
    """in this process"""
    # the cyclic collector runs finalizers at moments nobody controls: it only
    # runs between scenarios
    gc.disable()
    gc.collect()
    tmp = None
    try:
        if prop.needs_tmp:
            base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
            tmp = tempfile.mkdtemp(prefix='dst-', dir=base)
        out = prop.run(sc, tmp)
    finally:
        if tmp is not None:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def _child(fn, wfd):
    try:
        res = ('ok', fn())
    except BaseException:  # noqa: B036
        res = ('err', traceback.format_exc())
    try:
        data = pickle.dumps(res)
    except Exception:
        data = pickle.dumps(('err', traceback.format_exc()))
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


class Job:
    def __init__(self, key, fn, limit):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            _child(fn, w)
        os.close(w)
        self.key, self.pid, self.fd = key, pid, r
        self.buf = []
        self.deadline = _now() + limit

    def read(self):
        d = os.read(self.fd, 1 << 20)
        if d:
            self.buf.append(d)
            return False
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        return True

    def result(self):
        data = b''.join(self.buf)
        if not data:
            return ('err', DIED)
        return pickle.loads(data)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.close(self.fd)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


def run_jobs(tasks, workers, limit, stop=None):
    """run (key, fn) tasks in forked processes; yields (key, result) as they
    finish; result is ('ok', value), ('err', text) or ('hang', None)"""
    tasks = iter(tasks)
    live = {}
    done = False
    try:
        while True:
            while not done and len(live) < workers:
                if stop is not None and stop():
                    done = True
                    break
                try:
                    key, fn = next(tasks)
                except StopIteration:
                    done = True
                    break
                j = Job(key, fn, limit)
                live[j.fd] = j
            if not live:
                return
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ready:
                j = live[fd]
                if j.read():
                    del live[fd]
                    yield j.key, j.result()
            now = _now()
            for fd, j in list(live.items()):
                if now > j.deadline:
                    j.kill()
                    del live[fd]
                    yield j.key, ('hang', None)
    finally:
        for j in live.values():
            j.kill()


def isolated(fn, limit=300):
    """run fn in a fresh fork of this process"""
    for _, res in run_jobs([(0, fn)], 1, limit):
        if res[0] == 'ok':
            return res[1]
        raise HarnessError(f'{res[0]}: {res[1]}')


def exec_seq(prop, prefix, sc):
    """run prefix scenarios then sc, in one fresh process"""

    def fn():
        for p in prefix:
            run_scenario(prop, p)
        return run_scenario(prop, sc).light()

    for _, res in run_jobs([(0, fn)], 1, 45 if prop.wall_hang else 300):
        if res[0] == 'ok':
            return res[1]
        if res[0] == 'hang' and prop.wall_hang:
            o = Out()
            o.viol.append(
                {
                    'prop': prop.id,
                    'kind': 'wall-hang',
                    'client': 0,
                    'run': -1,
                    'eval': -1,
                    'detail': 'no progress within 45 s',
                }
            )
            return o.light()
        raise HarnessError(f'{res[0]}: {res[1]}')


# --------------------------------------------------------------------------
# known findings


def load_known():
    """lines 'known: property=<id> kind=<kind> match=<substring> | text'"""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith('known:'):
            continue
        head, _, text = line[len('known:') :].partition('|')
        d = dict(t.split('=', 1) for t in head.split())
        d['text'] = text.strip()
        out.append(d)
    return out


def is_known(known, v):
    for d in known:
        if d['property'] != v['prop'] or d.get('kind') != v['kind']:
            continue
        if d.get('match') and d['match'] not in v['detail']:
            continue
        return d
    return None


# --------------------------------------------------------------------------
# minimisation


def _paths_lists(sc, path=()):
    """lists inside the scenario whose elements may be dropped"""
    out = []
    if isinstance(sc, dict):
        for k, v in sc.items():
            if k in DROPPABLE and isinstance(v, list) and v:
                out.append(path + (k,))
            if isinstance(v, (dict, list)) and k not in OPAQUE:
                out += _paths_lists(v, path + (k,))
    elif isinstance(sc, list):
        for i, v in enumerate(sc):
            if isinstance(v, (dict, list)):
                out += _paths_lists(v, path + (i,))
    return out


DROPPABLE = {
    'faults',
    'runs',
    'clients',
    'switches',
    'disk',
    'latency',
    'variants',
    'ops',
    '_dflt',
}
OPAQUE = {'lb', 'ub', 'x0', 'c', 'hess0', 'lin', 'switches'}


def _get(sc, path):
    for p in path:
        sc = sc[p]
    return sc


def _dicts(sc, path=()):
    out = []
    if isinstance(sc, dict):
        out.append(path)
        for k, v in sc.items():
            out += _dicts(v, path + (k,))
    elif isinstance(sc, list):
        for i, v in enumerate(sc):
            if isinstance(v, (dict, list)):
                out += _dicts(v, path + (i,))
    return out


SIMPLE = {
    'stepback_strategy': ['reflect'],
    'subspace_solver': ['2D'],
    'verbose': [40],
    'alias': [None],
    'instr': [False],
    'stderr': ['ok'],
    'share': [False],
    'shift': [0.0],
    'fscale': [1.0],
    'hscale': [1.0],
}
DELETABLE = {
    'theta_max',
    'mu',
    'eta',
    'gamma1',
    'gamma2',
    'delta_init',
    'fatol',
    'frtol',
    'gatol',
    'grtol',
    'xtol',
    'hess0',
    'interrupt_at',
    'interrupt_with',
    'until',
    'alias',
    'shift',
    'fscale',
    'hscale',
    'latency',
    'share',
    'x0_from',
    'start_id',
    'lin',
    'noise',
    'diag',
    'maxtime',
    'options',
    'nested',
    'rep',
    'round',
    '_lb',
    '_ub',
    '_x0',
    '_hess0',
    '_reply',
    '_f',
    '_opts',
    '_dflt',
    '_hist',
}


def _candidates(sc):
    """simpler scenarios, most aggressive first"""
    for path in _paths_lists(sc):
        lst = _get(sc, path)
        n = len(lst)
        keep = 1 if path[-1] in ('runs', 'clients', 'variants') else 0
        if path[-1] == 'latency':
            keep = 1
        size = n
        while size >= 1:
            for i in range(0, n, size):
                new = lst[:i] + lst[i + size :]
                if len(new) < keep or len(new) == n:
                    continue
                c = copy.deepcopy(sc)
                _get(c, path[:-1])[path[-1]] = new
                yield c
            size //= 2
    for path in _dicts(sc):
        d = _get(sc, path)
        for k in list(d):
            if k in DELETABLE:
                c = copy.deepcopy(sc)
                del _get(c, path)[k]
                yield c
            if k in SIMPLE and d[k] not in SIMPLE[k]:
                for v in SIMPLE[k]:
                    c = copy.deepcopy(sc)
                    _get(c, path)[k] = v
                    yield c
            if k == 'maxiter' and not isinstance(d[k], str) and d[k] > 1:
                for v in sorted({1, d[k] // 2, d[k] - 1}):
                    if 0 < v < d[k]:
                        c = copy.deepcopy(sc)
                        _get(c, path)[k] = v
                        yield c
            if k == 'interrupt_at' and d[k] > 1:
                for v in (d[k] // 2, d[k] - 1):
                    c = copy.deepcopy(sc)
                    _get(c, path)[k] = v
                    yield c
            if k in ('x0', 'c', 'lb', 'ub') and isinstance(d[k], list):
                for nd in (0, 2, 6):
                    try:
                        v = [float(f'{x:.{nd}f}') for x in d[k]]
                    except (TypeError, ValueError):
                        break
                    if v != d[k]:
                        c = copy.deepcopy(sc)
                        _get(c, path)[k] = v
                        yield c
                        break


def shrink(prop, prefix, sc, key, max_execs=400, max_s=60):
    """greedy minimisation; key = (prop, kind)"""
    t0 = _now()
    n = 0

    def fails(p, s):
        nonlocal n
        n += 1
        try:
            o = exec_seq(prop, p, s)
        except HarnessError:
            return None
        for v in o['viol']:
            if (v['prop'], v['kind']) == key:
                return o
        return None

    best = fails(prefix, sc)
    if best is None:
        return prefix, sc, None, n
    # shrink the prefix first
    size = len(prefix)
    while size >= 1 and prefix:
        i = 0
        while i < len(prefix):
            p = prefix[:i] + prefix[i + size :]
            o = fails(p, sc)
            if o is not None:
                prefix, best = p, o
            else:
                i += size
            if _now() - t0 > max_s:
                break
        size //= 2
    # from a random plan to the explicit schedule it produced
    if sc.get('plan', {}).get('mode') not in (None, 'explicit'):
        c = copy.deepcopy(sc)
        c['plan'] = {
            'mode': 'explicit',
            'switches': best['switches'] or [],
        }
        o = fails(prefix, c)
        if o is not None:
            sc, best = c, o
    progress = True
    while progress and n < max_execs and _now() - t0 < max_s:
        progress = False
        for c in _candidates(sc):
            if n >= max_execs or _now() - t0 > max_s:
                break
            try:
                ok = prop.valid(c)
            except Exception:
                ok = False
            if not ok:
                continue
            o = fails(prefix, c)
            if o is not None:
                sc, best = c, o
                progress = True
                break
    return prefix, sc, best, n


# --------------------------------------------------------------------------
# search


def make_scenario(prop, seed, index):
    from . import gen

    r = gen.rng_for(seed, prop.id, index)
    sc = prop.gen(r, index)
    sc['seed'] = seed
    sc['index'] = index
    sc['prop'] = prop.id
    return sc


def search(prop, seed, total, workers, chunk=20, limit=120, known=()):
    """returns (aggregate, violation or None)"""
    agg = {
        'n': 0,
        'faults': collections.Counter(),
        'probes': collections.Counter(),
        'sim_s': 0.0,
        'sigs': set(),
        'inters': set(),
        'nontrivial': 0,
        'runs': 0,
        'evals': 0,
        'lines': 0,
        'known': collections.Counter(),
        'digest': {},
    }
    found = []

    def task(lo, hi=None):
        hi = min(total, lo + chunk) if hi is None else hi

        def fn():
            res = []
            for i in range(lo, hi):
                sc = make_scenario(prop, seed, i)
                o = run_scenario(prop, sc).light()
                res.append((i, o))
                bad = [v for v in o['viol'] if is_known(known, v) is None]
                if bad:
                    break
            return res

        return lo, fn

    def tasks():
        for lo in range(0, total, chunk):
            # nothing after the earliest violation matters
            if found and lo > min(found)[0]:
                return
            yield task(lo)

    results = {}
    stuck = died = 0
    for lo, res in run_jobs(tasks(), workers, limit):
        if res[0] == 'err' and res[1] != DIED:
            raise HarnessError(f'chunk {lo}: {res[0]}: {res[1]}')
        if res[0] != 'ok':
            # one scenario of the chunk never came back: find it
            # (HDF5 itself may crash after an injected write error)
            if res[1] == DIED:
                died += 1
            else:
                stuck += 1
            if stuck > 3 or died > 10 + total // 100:
                raise HarnessError(f'chunk {lo}: {res[0]}, too many of these')
            one = []
            for i in range(lo, min(total, lo + chunk)):
                for _, r1 in run_jobs([task(i, i + 1)], 1, 45):
                    if r1[0] == 'ok':
                        one += r1[1]
                    elif r1[0] == 'hang' and prop.wall_hang:
                        o = Out()
                        o.viol.append(
                            {
                                'prop': prop.id,
                                'kind': 'wall-hang',
                                'client': 0,
                                'run': -1,
                                'eval': -1,
                                'detail': 'no progress within 45 s',
                            }
                        )
                        one.append((i, o.light()))
                    else:
                        agg['probes']['scenario_' + r1[0]] += 1
            res = ('ok', one)
        results[lo] = res[1]
        for i, o in res[1]:
            for v in o['viol']:
                if is_known(known, v) is None:
                    found.append((i, lo))
                    break
    first = min(found) if found else None
    viol = None
    for lo in sorted(results):
        if first is not None and lo > first[1]:
            continue
        for i, o in results[lo]:
            agg['n'] += 1
            agg['faults'].update(o['faults'])
            agg['probes'].update(o['probes'])
            agg['sim_s'] += o['sim_s']
            agg['sigs'].add(o['sig'])
            if o['inter']:
                agg['inters'].add(o['inter'])
            if o['nontrivial']:
                agg['nontrivial'] += 1
                agg.setdefault('nt_sigs', set()).add(o['sig'])
            agg['runs'] += o['runs']
            agg['evals'] += o['evals']
            agg['lines'] += o['lines']
            agg['digest'][i] = o['digest']
            for v in o['viol']:
                d = is_known(known, v)
                if d is not None:
                    agg['known'][d['text']] += 1
                elif viol is None:
                    viol = {'index': i, 'lo': lo, 'v': v, 'all': o['viol']}
    return agg, viol


def report(prop, seed, viol, quick=True):
    """confirm, minimise and write the replay file; returns its path"""
    i, lo, v = viol['index'], viol['lo'], viol['v']
    sc = make_scenario(prop, seed, i)
    key = (v['prop'], v['kind'])
    prefix = []
    fresh = True

    def hit(o):
        return any((x['prop'], x['kind']) == key for x in o['viol'])

    o = exec_seq(prop, [], sc)
    if not hit(o):
        prefix = [make_scenario(prop, seed, j) for j in range(lo, i)]
        o = exec_seq(prop, prefix, sc)
        if not hit(o):
            # the package depends on something no seam controls (addresses,
            # say); what was observed is a violation all the same
            if v['kind'] == 'wall-hang':
                raise HarnessError(
                    f'violation {key} at index {i} does not reproduce'
                )
            prefix, fresh = [], False
            print('this execution was not repeatable', flush=True)
    orig = copy.deepcopy(sc)
    o2 = None
    p2, s2, n = prefix, sc, 0
    if fresh and os.environ.get('DST_NOSHRINK') != '1':
        p2, s2, o2, n = shrink(
            prop, prefix, sc, key, max_s=45 if quick else 300
        )
    if o2 is None:
        p2, s2, o2 = prefix, sc, o
    if not fresh:
        o2 = dict(o2, viol=[v])
    w = [x for x in o2['viol'] if (x['prop'], x['kind']) == key][0]
    os.makedirs(OUTDIR, exist_ok=True)
    path = os.path.join(OUTDIR, f'{prop.id}-{seed}-{i}-{v["kind"]}.json')
    with open(path, 'w') as f:
        json.dump(
            {
                'property': prop.id,
                'kind': v['kind'],
                'detail': w['detail'],
                'where': {k: w.get(k) for k in ('client', 'run', 'eval')},
                'seed': seed,
                'index': i,
                'digest': o2['digest'],
                'shrink_executions': n,
                'prefix': p2,
                'scenario': s2,
                'original': orig,
            },
            f,
            indent=1,
        )
    return path, w


def known_probes(prop):
    """texts of the known findings of this property that are still there"""
    if type(prop).known_probe.__qualname__.startswith('Prop.'):
        return []

    def fn():
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        tmp = tempfile.mkdtemp(prefix='dst-', dir=base)
        try:
            return prop.known_probe(tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    return [t for t, there in isolated(fn) if there]


def strict(x):
    """plain JSON: infinities as text"""
    if isinstance(x, dict):
        return {k: strict(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [strict(v) for v in x]
    if isinstance(x, float) and (x != x or abs(x) == float('inf')):
        return repr(x)
    return x


def evidence(prop, tier, seed, agg, wall, total, nviol, workers, probes):
    hours = max(wall, 1e-9) / 3600
    samples = []
    for i in (0, 1, 7):
        if i < agg['n']:
            sc = make_scenario(prop, seed, i)
            samples.append(
                {
                    'index': i,
                    'digest': agg['digest'].get(i),
                    'scenario': strict(sc),
                }
            )
    nt = len(agg.get('nt_sigs', ()))
    cov = {
        'evaluations': agg['n'],
        'distinct_nontrivial': nt,
        'rule': prop.rule + '; non-trivial: ' + prop.nt_rule
        + '; distinct: by the per-evaluation trace of (radius change, '
        'acceptance, faults), configuration and exit reason, plus the '
        'schedule where there is one',
        'samples': samples,
        'nontrivial': agg['nontrivial'],
        'simulated_runs': agg['runs'],
        'simulated_runs_per_hour': round(agg['runs'] / hours),
        'seeds_per_hour': round(agg['n'] / hours),
        'objective_evaluations': agg['evals'],
        'source_lines_executed': agg['lines'],
        'simulated_time_s': round(agg['sim_s'], 3),
        'faults_injected': dict(sorted(agg['faults'].items())),
        'events': dict(sorted(agg['probes'].items())),
        'distinct_behaviours': len(agg['sigs']),
        'distinct_interleavings': len(agg['inters']),
        'real_components': prop.real,
        'simulated_components': prop.stub,
        'workers': workers,
        'scenario_seed': seed,
        'known_findings_seen': dict(agg['known']),
        'known_findings_probed': probes,
    }
    ev = {
        'property': prop.id,
        'tier': tier,
        'seed': seed,
        'level': prop.level,
        'coverage': cov,
        'assumptions': [
            'what was not sampled is not covered',
            'numerical comparisons allow for rounding (bounds in dst/model.py '
            'and dst/oracles.py)',
        ],
        'wall_s': round(total, 3),
        'violations': nviol,
    }
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop.id + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def replay(prop, path):
    d = json.load(open(path))
    o = exec_seq(prop, d['prefix'], d['scenario'])
    hit = [v for v in o['viol'] if v['kind'] == d['kind']]
    return d, o, hit
