"""Properties that compare a run with the same run in another world."""

import copy

import numpy as np

from . import gen
from .base import Prop, register
from .engine import Out
from .model import DEFAULTS
from .oracles import viol
from .sim import diff_runs, eqv, hung, result_intact, run_sig, simulate

OPTION_CHANGES = [
    ('subspace_solver', gen.SUBS),
    ('stepback_strategy', ['reflect', 'reflect_single', 'truncate', 'mixed']),
    ('delta_init', [0.01, 0.3, 5.0, 100.0]),
    ('theta_max', [0.5, 0.7, 0.99]),
    ('mu', [0.05, 0.4]),
    ('eta', [0.5, 0.9]),
    ('gamma1', [0.1, 0.5]),
    ('gamma2', [1.3, 4.0]),
    ('maxiter', [1, 2, 5, 15]),
    ('fatol', [0.0, 1e-2]),
    ('frtol', [0.0, 1e-2]),
    ('xtol', [0.0, 1e-2]),
    ('gatol', [0.0, 1e-2]),
    ('grtol', [0.0, 1e-2]),
    ('maxtime', [1e-3, 1.0, 100.0]),
]


def solo(sc, tmp, cs):
    """the client alone in a fresh world"""
    base = {k: v for k, v in sc.items() if k not in ('plan', 'clients')}
    return simulate(dict(base, clients=[cs]), tmp, plan=False)


@register
class C09(Prop):
    id = 'C09'
    quick = 2200
    thorough = 45000
    needs_tmp = True
    rule = (
        'one optimizer (sometimes two sharing a Hessian approximation object) '
        'performs 1-4 arbitrary runs - failing, interrupted at an arbitrary '
        'executed line, with other options - and then a probe run, which is '
        'compared bit by bit with the same run on fresh objects'
    )
    nt_rule = (
        'an earlier run evaluated the objective at least twice and the probe '
        'run did as well'
    )

    def gen(self, r, index):
        nd = int(r.integers(1, 5))
        c = gen.client(
            r,
            maxiter=25,
            nruns=nd + 1,
            p_none=0.25,
            fault_kw={'p_abort': 0.4, 'start': 0.08},
        )
        if (
            c['hess'] is not None
            and c['hess']['cls'] == 'HybridFraction'
            and r.random() < 0.5
        ):
            for rs in c['runs']:
                rs['faults'] = []
        base = dict(c['options'])
        n = len(c['lb'])
        if r.random() < 0.2:
            c['funargs'] = {'tag': int(r.integers(9))}
        if r.random() < 0.2:
            for rs in c['runs']:
                rs['latency'] = gen.fl(10.0 ** r.uniform(-3, 0, 3))
            if r.random() < 0.7:
                base['maxtime'] = c['options']['maxtime'] = float(
                    10.0 ** r.uniform(-2, 1.5)
                )
        if r.random() < 0.2:
            c['history'] = 'h.h5'
        for rs in c['runs'][:-1]:
            if r.random() < 0.35:
                rs['interrupt_at'] = int(10.0 ** r.uniform(0, 4.3))
                if r.random() < 0.3:
                    rs['interrupt_with'] = gen.pick(r, gen.ASYNC)
            if r.random() < 0.35:
                rs['options'] = {}
                for _ in range(int(r.integers(1, 4))):
                    k, vs = OPTION_CHANGES[
                        int(r.integers(len(OPTION_CHANGES)))
                    ]
                    rs['options'][k] = gen.pick(r, vs)
            if r.random() < 0.1:
                gen_k = int(r.integers(0, 8))
                rs['faults'].append(
                    {'k': gen_k, 'kind': gen.pick(r, gen.ABORT_KINDS)}
                )
            if r.random() < 0.15:
                rs['scribble_results'] = True
        changed = sorted(
            {k for rs in c['runs'] for k in rs.get('options', ())}
        )
        p = c['runs'][-1]
        if changed:
            p['options'] = {k: base.get(k, DEFAULTS[k]) for k in changed}
            if p['options'].get('maxtime') == np.inf:
                p['options']['maxtime'] = 1e300
                c['options']['maxtime'] = 1e300
        # an option change must not leak past the next run that sets it
        for a, b in zip(c['runs'][:-2], c['runs'][1:-1]):
            if r.random() < 0.5:
                for k in a.get('options', ()):
                    b.setdefault('options', {}).setdefault(
                        k, p['options'].get(k)
                    )
        clients = [c]
        if c['hess'] is not None and r.random() < 0.35:
            # another optimizer, own dimensions, same approximation object
            while True:
                c2 = gen.client(
                    r,
                    maxiter=20,
                    nruns=int(r.integers(1, 3)),
                    p_none=0.0,
                    fault_kw={'p_abort': 0.3},
                    fams=(
                        ['fletcher', 'expfit', 'linlsq', 'rosenlsq']
                        if c['resfun']
                        else None
                    ),
                )
                if c2['resfun'] == c['resfun']:
                    break
            c2['hess'] = c['hess']
            for rs in c2['runs']:
                if r.random() < 0.2:
                    rs['interrupt_at'] = int(10.0 ** r.uniform(0, 4))
                if isinstance(rs.get('hess0'), str):
                    del rs['hess0']
            # the sharer runs first, the probed client uses its object
            c['hess_from'] = 0
            clients = [c2, c]
        return {'clients': clients}

    def valid(self, sc):
        if not super().valid(sc):
            return False
        c = sc['clients'][-1]
        if c.get('hess_from') is not None and len(sc['clients']) < 2:
            return False
        # the probe must still restore every option that was changed
        ch = {k for rs in c['runs'] for k in rs.get('options', ())}
        return ch <= set(c['runs'][-1].get('options', ch if not ch else ()))

    def run(self, sc, tmp):
        out = Out()
        w = simulate(sc, tmp)
        out.add_world(w, w.clients)
        c = w.clients[-1]
        probe = c.runs[-1]
        cs = copy.deepcopy(sc['clients'][-1])
        cs['runs'] = [cs['runs'][-1]]
        cs.pop('hess_from', None)
        if cs.get('history'):
            cs['history'] = 'fresh.h5'
        w2 = solo(sc, tmp, cs)
        out.add_world(w2, w2.clients)
        ref = w2.clients[0].runs[0]
        for cc in w.clients:
            for ri, r in enumerate(cc.runs):
                out.sig.append(run_sig(cc, r))
                if not result_intact(r):
                    out.viol.append(
                        viol('C09', 'result-changed-later', cc, ri, -1, '')
                    )
        if hung(probe) and hung(ref):
            return out
        d = diff_runs(probe, ref)
        if d:
            out.viol.append(
                viol('C09', 'depends-on-history', c, len(c.runs) - 1, -1, d)
            )
        out.nontrivial = len(probe.evals) > 1 and any(
            len(r.evals) > 1
            for cc in w.clients
            for r in cc.runs
            if r is not probe
        )
        return out


@register
class C20(Prop):
    id = 'C20'
    quick = 2500
    thorough = 50000
    rule = (
        'objective that overwrites or keeps its argument, reuses the arrays '
        'it returned, caller that changes bounds, start, initial Hessian and '
        'returned results; every run compared bit by bit with an undisturbed '
        'one, every array handed over or received checked for changes'
    )
    nt_rule = 'a disturbance happened and at least two evaluations were made'

    def gen(self, r, index):
        c = gen.client(
            r,
            maxiter=30,
            nruns=int(r.integers(1, 4)),
            fault_kw={'p_abort': 0.1},
        )
        modes = []
        if r.random() < 0.75:
            modes.append(gen.pick(r, ['scribble', 'keep']))
        if r.random() < 0.75:
            modes.append(gen.pick(r, ['reuse', 'watch']))
        c['alias'] = '+'.join(modes)
        for rs in c['runs']:
            if r.random() < 0.5:
                m = {'k': int(r.integers(0, 10)), 'kind': 'mutate'}
                m['what'] = [
                    x
                    for x in ('lb', 'ub', 'x0', 'hess0')
                    if r.random() < 0.6
                ]
                if r.random() < 0.5:
                    m['add'] = float(r.normal() * 10)
                else:
                    m['mul'] = float(gen.pick(r, [0.0, -1.0, 2.0, np.nan]))
                    if np.isnan(m['mul']):
                        m['mul'], m['add'] = 0.0, 1e9
                rs['faults'].append(m)
            if r.random() < 0.3:
                rs['scribble_results'] = True
        return {'clients': [c]}

    def run(self, sc, tmp):
        out = Out()
        w = simulate(sc, tmp)
        out.add_world(w, w.clients)
        c = w.clients[0]
        s2 = copy.deepcopy(sc)
        for cs in s2['clients']:
            cs.pop('alias', None)
            for rs in cs['runs']:
                rs.pop('scribble_results', None)
                rs['faults'] = [
                    f for f in rs['faults'] if f['kind'] != 'mutate'
                ]
        w2 = simulate(s2, tmp)
        out.add_world(w2, w2.clients)
        for name, a, orig in c.inputs:
            if not eqv(a, orig):
                out.viol.append(
                    viol(
                        'C20',
                        'input-modified',
                        c,
                        -1,
                        -1,
                        f'{name}: {a.tolist()} was {orig.tolist()}',
                    )
                )
        if c.opts_in != c.opts_copy:
            out.viol.append(
                viol('C20', 'options-modified', c, -1, -1, repr(c.opts_in))
            )
        for a, orig in c.objective.kept:
            if not eqv(a, orig):
                out.viol.append(
                    viol(
                        'C20',
                        'argument-changed-later',
                        c,
                        -1,
                        -1,
                        f'{a.tolist()} was {orig.tolist()}',
                    )
                )
                break
        for k, a, orig in c.objective.given:
            if not eqv(a, orig):
                out.viol.append(
                    viol(
                        'C20',
                        'reply-modified',
                        c,
                        -1,
                        k,
                        f'{a.tolist()} was {orig.tolist()}',
                    )
                )
                break
        for ri, (a, b) in enumerate(zip(c.runs, w2.clients[0].runs)):
            out.sig.append(run_sig(c, a))
            d = diff_runs(a, b)
            if d and not hung(a):
                out.viol.append(
                    viol('C20', 'sharing-matters', c, ri, -1, d)
                )
                break
            if not result_intact(a):
                out.viol.append(
                    viol('C20', 'result-changed-later', c, ri, -1, '')
                )
        out.nontrivial = any(len(r.evals) > 1 for r in c.runs) and any(
            k.startswith(('objective_', 'caller_')) and 'raises' not in k
            for k in w.faults
        )
        return out


def plan(r, clients):
    m = gen.pick(r, ['rand', 'focus', 'focus', 'pct'])
    d = {'mode': m, 'seed': int(r.integers(1 << 30))}
    if m == 'rand':
        d['p'] = float(10.0 ** r.uniform(-3, -0.5))
    elif m == 'focus':
        d['p'] = float(10.0 ** r.uniform(-1.5, 0))
        d['frac'] = float(r.uniform(0.05, 0.4))
    else:
        d['d'] = int(r.integers(1, 8))
        d['horizon'] = float(10.0 ** r.uniform(2.5, 4.5))
    return d


@register
class C10(Prop):
    id = 'C10'
    quick = 1300
    thorough = 26000
    chunk = 10
    rule = (
        '2-4 optimizers in caller threads under a seeded scheduler that '
        'decides at every executed line (or bytecode instruction) of the '
        'package, lock, log write and objective call; some fail, are '
        'interrupted, share their inputs or run optimizers inside their '
        'objective; each run compared bit by bit with the same run alone'
    )
    nt_rule = 'at least two context switches happened while two runs were active'

    def gen(self, r, index):
        m = int(gen.pick(r, [2, 3, 4], p=[0.6, 0.25, 0.15]))
        share = r.random() < 0.35
        clients = []
        proto = None
        for i in range(m):
            if share and proto is not None:
                c = copy.deepcopy(proto)
                for rs in c['runs']:
                    rs['faults'] = gen.faults(r, len(c['lb']), 10, 0.3)
            else:
                c = gen.client(
                    r,
                    maxiter=12,
                    nruns=int(r.integers(1, 3)),
                    fault_kw={'p_abort': 0.3},
                    p_none=0.3,
                    n=int(gen.pick(r, [1, 2, 3])),
                )
            if r.random() < 0.25:
                c['verbose'] = int(gen.pick(r, [10, 20, 30]))
            proto = proto or c
            clients.append(c)
            if share:
                c['share'] = True
            for rs in c['runs']:
                if r.random() < 0.1:
                    rs['interrupt_at'] = int(10.0 ** r.uniform(0, 3.5))
                if r.random() < 0.08 and 'interrupt_at' not in rs:
                    sub = gen.client(
                        r, maxiter=6, nruns=1, n=2, fault_kw={'p_abort': 0.3}
                    )
                    rs['faults'].append(
                        {
                            'k': int(r.integers(0, 4)),
                            'kind': 'nested',
                            'client': sub,
                        }
                    )
        sc = {'clients': clients, 'plan': plan(r, clients)}
        if r.random() < 0.12:
            sc['instr'] = True
        return sc

    def valid(self, sc):
        return super().valid(sc) and not any(
            rs.get('interrupt_at')
            and any(f['kind'] == 'nested' for f in rs['faults'])
            for c in sc['clients']
            for rs in c['runs']
        )

    def run(self, sc, tmp):
        out = Out()
        w = simulate(sc, tmp)
        out.add_world(w, w.clients)
        if w.sched.deadlock:
            out.viol.append(
                viol('C10', 'deadlock', w.clients[0], -1, -1, 'threads stuck')
            )
            return out
        for i, e in sorted(w.sched.errors.items()):
            out.viol.append(
                viol('C10', 'thread-error', w.clients[i], -1, -1, repr(e))
            )
        judge_solo(self.id, out, sc, w, tmp)
        out.nontrivial = len(w.sched.switches) >= 2
        return out


def judge_solo(pid, out, sc, w, tmp):
    for c in w.clients:
        cs = copy.deepcopy(c.spec)
        for rs in cs['runs']:
            rs['faults'] = [f for f in rs['faults'] if f['kind'] != 'nested']
        w2 = solo(sc, tmp, cs)
        out.add_world(w2, w2.clients)
        compare_clients(pid, out, c, w2.clients[0])
        for f, sub in c.subs:
            w3 = solo(sc, tmp, copy.deepcopy(f['client']))
            out.add_world(w3, w3.clients)
            compare_clients(pid, out, sub, w3.clients[0], 'nested-')


def compare_clients(pid, out, c, ref, tag=''):
    if len(c.runs) != len(ref.runs):
        out.viol.append(
            viol(pid, tag + 'runs-missing', c, -1, -1, '')
        )
        return
    for ri, (a, b) in enumerate(zip(c.runs, ref.runs)):
        out.sig.append(run_sig(c, a))
        if hung(b):
            continue
        d = diff_runs(a, b)
        if d:
            out.viol.append(
                viol(pid, tag + 'depends-on-others', c, ri, -1, d)
            )
            return


DISK_KINDS = ['enospc', 'eio', 'short', 'crash', 'torn', 'slow']


def disk_fault(r, opens=1):
    k = gen.pick(r, DISK_KINDS + ['open_eio', 'open_busy', 'open_perm'])
    f = {'kind': k, 'open': int(r.integers(0, opens))}
    if not k.startswith('open_'):
        f['op'] = int(r.integers(1, 70))
        if k in ('enospc', 'eio', 'slow'):
            f['until'] = f['op'] + int(
                gen.pick(r, [0, 0, 3, 1000], p=[0.4, 0.1, 0.2, 0.3])
            )
        if k in ('short', 'torn'):
            f['frac'] = float(r.uniform(0, 1))
    return f


def variant(r, nruns):
    v = {}
    if r.random() < 0.6:
        v['verbose'] = int(gen.pick(r, [0, 10, 10, 20, 20, 30, 50]))
    if r.random() < 0.5:
        v['stderr'] = gen.pick(r, ['epipe', 'epipe', 'slow'])
        v.setdefault('verbose', int(gen.pick(r, [10, 20])))
        v['stderr_after'] = int(gen.pick(r, [0, 1, 5, 30]))
    if r.random() < 0.6:
        v['history'] = 'v.h5'
        k = r.random()
        if k < 0.55:
            v['disk'] = [
                disk_fault(r, nruns) for _ in range(int(r.integers(0, 3)))
            ]
        elif k < 0.85:
            v['pre'] = gen.pick(
                r, ['garbage', 'directory', 'missing-directory', 'empty', 'dup']
            )
        if r.random() < 0.3:
            v['hist_type'] = 'Path'
    if r.random() < 0.3 or v.get('pre') == 'dup':
        v['start_id'] = gen.pick(r, ['a', 'run-1', 'ä b', '0'])
    if r.random() < 0.1:
        v['instr'] = True
    return v


@register
class C11(Prop):
    id = 'C11'
    quick = 1500
    thorough = 30000
    needs_tmp = True
    rule = (
        'one optimizer with 1-3 runs, repeated with 1-3 other combinations of '
        'verbosity, log stream (broken, slow), history recording (disk '
        'errors, file that cannot be opened, unusable file) and run '
        'identifier; runs compared bit by bit with the unobserved ones'
    )
    nt_rule = (
        'a variant logged at least five records, recorded a history or met a '
        'stream or disk fault, in a run with at least two evaluations'
    )

    def gen(self, r, index):
        c = gen.client(
            r,
            maxiter=25,
            nruns=int(r.integers(1, 4)),
            fault_kw={'p_abort': 0.2},
        )
        n = int(r.integers(1, 4))
        return {
            'clients': [c],
            'variants': [variant(r, len(c['runs'])) for _ in range(n)],
        }

    def run(self, sc, tmp):
        import os

        out = Out()
        base = {k: v for k, v in sc.items() if k != 'variants'}
        w = simulate(base, tmp)
        out.add_world(w, w.clients)
        c = w.clients[0]
        for r in c.runs:
            out.sig.append(run_sig(c, r))
        for i, v in enumerate(sc['variants']):
            s2 = copy.deepcopy(base)
            cs = s2['clients'][0]
            for k in ('stderr', 'stderr_after', 'instr'):
                if k in v:
                    s2[k] = v[k]
            for k in ('verbose', 'hist_type'):
                if k in v:
                    cs[k] = v[k]
            if v.get('start_id'):
                for rs in cs['runs']:
                    rs['start_id'] = v['start_id']
            sub = os.path.join(tmp, f'v{i}')
            os.mkdir(sub)
            bad = False
            if v.get('history'):
                cs['history'] = v['history']
                p = os.path.join(sub, v['history'])
                pre = v.get('pre')
                if pre == 'garbage':
                    with open(p, 'wb') as f:
                        f.write(b'this is not an HDF5 file' * 40)
                elif pre == 'empty':
                    open(p, 'wb').close()
                elif pre == 'directory':
                    os.mkdir(p)
                elif pre == 'missing-directory':
                    cs['history'] = 'no/' + v['history']
                elif pre == 'dup':
                    import h5py

                    with h5py.File(p, 'a') as f:
                        f.create_group(v['start_id'])
                # the same identifier twice is refused as well
                bad = pre is not None or v.get('start_id') is not None
                if pre:
                    w.faults['history_' + pre] += 1
            w2 = simulate(s2, sub, disk=v.get('disk'))
            out.add_world(w2, w2.clients)
            c2 = w2.clients[0]
            bad = bad or any(k.startswith('disk_') for k in w2.faults)
            for ri, (a, b) in enumerate(zip(c2.runs, c.runs)):
                if hung(b):
                    break
                d = self.diff(a, b, bad and v.get('history'))
                if d:
                    out.viol.append(
                        viol(
                            'C11',
                            'observation-matters',
                            c2,
                            ri,
                            -1,
                            f'variant {i} {v}: {d}',
                        )
                    )
                    break
                if len(b.evals) > 1 and (
                    len(w2.stderr_buf) > 5
                    or v.get('history')
                    or sum(w2.faults.values())
                ):
                    out.nontrivial = True
        return out

    def diff(self, a, b, lenient):
        exc = a.exc
        if lenient and b.exc is None and a.exc is not None:
            # recording the history failed: reported after the run
            a.exc = None
            if a.result is None:
                a.ret_copy = b.ret_copy
        try:
            return diff_runs(a, b, hist=False)
        finally:
            a.exc = exc
