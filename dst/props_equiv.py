"""Properties about settings that mean the same."""

import copy

import numpy as np

from . import gen
from .base import Prop, register
from .engine import Out
from .oracles import viol
from .props_repr import diff_repr
from .sim import eqv, hung, run_sig, simulate

CURV = ('BFGS', 'DFP', 'Broyden')
# documented defaults of the Hessian schemes
ARGS = {
    'BFGS': {'enforce_curv_cond': True},
    'DFP': {'enforce_curv_cond': True},
    'Broyden': {'enforce_curv_cond': True},
    'HybridFixed': {'switch_iteration': 20},
    'HybridFraction': {'switch_threshold': 0.8},
    'FX': {'hybrid_tol': 0.2},
    'SSM': {'phi': 0.0, 'enforce_curv_cond': True},
    'TSSM': {'phi': 0.0, 'enforce_curv_cond': True},
    'GNSBFGS': {'hybrid_tol': 1e-6, 'enforce_curv_cond': True},
}
STEPBACKS = ['reflect', 'truncate', 'mixed', 'refine', 'reflect_single']


def rename(h):
    """the same member of the Broyden class by its other name"""
    a = dict(h.get('args', {}))
    if h['cls'] == 'BFGS':
        return {'cls': 'Broyden', 'args': dict(a, phi=0.0)}
    if h['cls'] == 'DFP':
        return {'cls': 'Broyden', 'args': dict(a, phi=1.0)}
    if h['cls'] == 'Broyden' and a.get('phi') in (0.0, 1.0):
        n = 'BFGS' if a.pop('phi') == 0.0 else 'DFP'
        return {'cls': n, 'args': a}
    return None


def explicit(h):
    """defaults spelled out where nothing was given, and left out where they
    were"""
    if h is None or h['cls'] not in ARGS:
        return None
    a = dict(h.get('args', {}))
    for k, v in ARGS[h['cls']].items():
        if k not in a:
            a[k] = v
        elif a[k] == v:
            del a[k]
    if 'happ' in a:
        if a['happ'] is not None and a['happ']['cls'] == 'BFGS' and not a[
            'happ'
        ].get('args'):
            del a['happ']
        elif a['happ'] is not None:
            a['happ'] = explicit(a['happ']) or a['happ']
    elif h['cls'] in ('HybridFixed', 'HybridFraction', 'FX'):
        a['happ'] = {'cls': 'BFGS', 'args': {}}
    return {'cls': h['cls'], 'args': a}


def variants(c):
    """the ways in which this client can be written differently"""
    h = c['hess']
    out = []
    if h is not None:
        if rename(h) or (
            h.get('args', {}).get('happ') and rename(h['args']['happ'])
        ):
            out.append('class')
        if h['cls'] in ARGS:
            out.append('defaults')
        if all(rs.get('hess0') is None for rs in c['runs']):
            out.append('identity')
        if h['cls'] not in (*CURV, 'SR1', 'BG', 'BB') and all(
            rs.get('hess0') == 'hess' for rs in c['runs']
        ):
            out.append('matrix')
    else:
        out += ['never-fixed', 'never-fraction']
    if c.get('resfun'):
        out.append('zero-residuals')
    if c.get('gn'):
        out.append('residuals')
    if not (np.isfinite(c['lb']).any() or np.isfinite(c['ub']).any()):
        out.append('stepback')
    if len(c['lb']) == 1:
        out += ['stepback', 'solver']
    if 'maxtime' not in c['options']:
        out.append('untimed')
    out.append('funargs')
    return out


def rewrite(c, v, runs):
    """(client that means the same, are all statistics the same)"""
    c = copy.deepcopy(c)
    h = c['hess']
    k = v['kind']
    if k == 'class':
        h2 = rename(h)
        if h2 is None:
            h2 = copy.deepcopy(h)
            h2['args']['happ'] = rename(h['args']['happ'])
        c['hess'] = h2
    elif k == 'defaults':
        c['hess'] = explicit(h)
    elif k == 'identity':
        n = len(c['lb'])
        for rs in c['runs']:
            rs['hess0'] = np.eye(n).tolist()
    elif k == 'matrix':
        for rs, r in zip(c['runs'], runs):
            e = r.evals[0] if r.evals else None
            if e is None or not e.ok:
                continue
            m = e.H if e.sres is None else e.sres.T.dot(e.sres)
            if m is not None and np.isfinite(m).all():
                rs['hess0'] = np.asarray(m, dtype=float).tolist()
    elif k.startswith('never'):
        a = {'switch_iteration': 10**6}
        cls = 'HybridFixed'
        if k == 'never-fraction':
            a = {'switch_threshold': 1.0}
            cls = 'HybridFraction'
        a['happ'] = v['happ']
        c['hess'] = {'cls': cls, 'args': a}
        for rs in c['runs']:
            rs['hess0'] = 'hess'
        return c, False
    elif k == 'zero-residuals':
        c['problem']['pad'] = int(v['pad'])
    elif k == 'residuals':
        c['resfun'] = True
        c['hess'] = {
            'cls': 'FX',
            'args': {'hybrid_tol': -1e300, 'happ': v['happ']},
        }
        for rs in c['runs']:
            rs['hess0'] = 'hess'
        return c, False
    elif k == 'stepback':
        c['options']['stepback_strategy'] = v['stepback']
    elif k == 'solver':
        c['options']['subspace_solver'] = v['solver']
        return c, False
    elif k == 'untimed':
        for rs in c['runs']:
            rs.pop('latency', None)
            rs['faults'] = [
                f for f in rs['faults'] if f['kind'] not in ('slow', 'wall')
            ]
    elif k == 'funargs':
        if c.pop('funargs', None) is None:
            c['funargs'] = {'tag': 3, 'scale': 2.5}
    return c, True


@register
class C30(Prop):
    id = 'C30'
    quick = 3000
    thorough = 60000
    needs_tmp = True
    rule = (
        '1-2 runs of one optimizer under a fault plan, repeated with 1-2 '
        'other settings that mean the same (Broyden class by member or '
        'parameter, Hessian scheme arguments left out or given their '
        'defaults, initial matrix by name or value, hybrid schemes that '
        'never switch, a least-squares problem by residuals or by value, '
        'residuals that are always zero, step-back strategies where no bound '
        'exists, solvers in one dimension, replies that take longer without a time budget, extra '
        'arguments of the objective); compared as in C25'
    )
    nt_rule = 'both runs agreed bit by bit on at least three evaluations'

    def gen(self, r, index):
        gn = bool(r.random() < 0.2)
        c = gen.client(
            r,
            maxiter=30,
            nruns=int(gen.pick(r, [1, 2], p=[0.8, 0.2])),
            fams=['fletcher', 'expfit', 'linlsq', 'rosenlsq'] if gn else None,
            bmode='none' if r.random() < 0.25 else None,
            fault_kw={'p_abort': 0.1},
        )
        c.pop('rep', None)
        if gn:
            # (faults of a reply are not the same in both forms)
            c.update(gn=True, hess=None, resfun=False)
            for rs in c['runs']:
                rs.pop('hess0', None)
                rs['faults'] = [
                    f
                    for f in rs['faults']
                    if f['kind'] in ('raise', 'kbd', 'mem', 'stop', 'slow')
                ]
        if r.random() < 0.3:
            gen.tolerances(r, c)
        h = c['hess']
        if h is not None and h['cls'] == 'HybridFraction':
            if r.random() < 0.6:
                h['args'].pop('switch_threshold', None)
        elif h is not None and not c.get('resfun') and r.random() < 0.4:
            self.broyden(r, c)
        elif h is not None and not c.get('resfun') and r.random() < 0.12:
            # around the default threshold, for longer than it is ignored
            c['hess'] = {
                'cls': 'HybridFraction',
                'args': {'happ': gen.iter_hess(r)},
            }
            c['problem']['hscale'] = float(r.uniform(0.55, 0.9))
            c['options'].update(
                maxiter=int(r.integers(28, 70)), fatol=0.0, frtol=0.0
            )
        o = c['options']
        if o.get('stepback_strategy') == 'refine':
            o['maxiter'] = min(o['maxiter'], 10)
        if r.random() < 0.3:
            for rs in c['runs']:
                rs['latency'] = gen.fl(10.0 ** r.uniform(-3, 3, size=4))
        if r.random() < 0.35:
            c['history'] = 'h.h5'
        vs = variants(c)
        if len(vs) > 1 and r.random() < 0.8:
            vs = [v for v in vs if v != 'funargs']
        out = []
        for _ in range(int(gen.pick(r, [1, 2], p=[0.6, 0.4]))):
            v = {'kind': gen.pick(r, [k for k in vs for _ in range(
                4 if k in ('class', 'matrix', 'solver') else 1)])}
            if v['kind'].startswith('never') or v['kind'] == 'residuals':
                v['happ'] = gen.iter_hess(r)
            elif v['kind'] == 'zero-residuals':
                v['pad'] = int(r.integers(1, 5))
            elif v['kind'] == 'solver':
                v['solver'] = gen.pick(
                    r,
                    ['2D', 'full']
                    if o.get('stepback_strategy') == 'refine'
                    else ['2D', 'full', 'scg'],
                )
            elif v['kind'] == 'stepback':
                v['stepback'] = gen.pick(
                    r,
                    STEPBACKS[:3]
                    if o.get('subspace_solver') == 'scg'
                    else STEPBACKS,
                )
            out.append(v)
        return {'clients': [c], 'variants': out, 'disk': {}}

    def broyden(self, r, c):
        n = len(c['lb'])
        c['hess'] = {'cls': gen.pick(r, ['BFGS', 'DFP', 'DFP']), 'args': {}}
        if r.random() < 0.5:
            c['hess']['args']['enforce_curv_cond'] = bool(r.random() < 0.4)
        for rs in c['runs']:
            rs.pop('hess0', None)
            if r.random() < 0.6:
                m = r.normal(size=(n, n))
                if r.random() < 0.5:
                    m = m @ m.T
                m = 0.5 * (m + m.T) + gen.pick(r, [0.0, 0.5]) * np.eye(n)
                rs['hess0'] = [gen.fl(row) for row in m]

    def valid(self, sc):
        if not super().valid(sc):
            return False
        c = sc['clients'][0]
        vs = variants(c)
        return all(v['kind'] in vs for v in sc['variants'])

    def run(self, sc, tmp):
        out = Out()
        base = {k: v for k, v in sc.items() if k != 'variants'}
        c0 = base['clients'][0]
        w0 = simulate(base, tmp)
        ca = w0.clients[0]
        out.add_world(w0, w0.clients)
        for r in ca.runs:
            out.sig.append(run_sig(ca, r))
        for i, v in enumerate(sc['variants']):
            cv, hist = rewrite(c0, v, ca.runs)
            if cv.get('history'):
                cv['history'] = f'{i}-' + cv['history']
            w = simulate(dict(base, clients=[cv]), tmp)
            out.add_world(w, w.clients)
            out.faults['written_' + v['kind']] += 1
            cb = w.clients[0]
            for ri, (a, b) in enumerate(zip(ca.runs, cb.runs)):
                if hung(a) or hung(b):
                    break
                d = diff_repr(a, b, ca, out, hist)
                if d and v['kind'] == 'solver' and not np.any(
                    a.evals[d[0]].snap['grad']
                ):
                    # conjugate gradients do not leave such a point
                    out.probes['gradient_vanished'] += 1
                    break
                if d:
                    out.viol.append(
                        viol('C30', 'meaning-differs', cb, ri, d[0],
                             f'{v}: {d[1]}')
                    )
                    return out
                if len(a.evals) >= 4 and len(b.evals) >= 4 and all(
                    eqv(p.x, q.x)
                    for p, q in zip(a.evals[:4], b.evals[:4])
                ):
                    out.nontrivial = True
        return out
