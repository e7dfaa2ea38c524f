"""Properties about where a run stops and how it is taken up again."""

import copy

import numpy as np

from . import gen
from .base import Prop, register
from .engine import Out
from .oracles import opt_of, options_plain, viol
from .sim import SKIP0, eqv, hung, run_sig, simulate

EPS = np.spacing(1.0)
STOPS = ('maxiter', 'maxtime', 'fatol', 'frtol', 'xtol', 'gatol', 'grtol')


def stop_options(r, o):
    """a few changed stopping criteria"""
    v = {}
    for k, vals in (
        ('maxiter', [1, 2, 3, 5, 8, 20, 60]),
        ('fatol', [0.0, 1e-8, 1e-3, 1e-1, 1.0, 1e3]),
        ('frtol', [0.0, 1e-8, 1e-3, 1e-1]),
        ('xtol', [0, 1e-6, 1e-2, 0.3, 10.0]),
        ('gatol', [0.0, 1e-6, 1e-2, 1.0, 1e3]),
        ('grtol', [0, 1e-4, 1e-1]),
    ):
        if r.random() < 0.4:
            v[k] = gen.pick(r, vals)
    if r.random() < 0.25:
        v['maxtime'] = float(10.0 ** r.uniform(-3, 3))
    if not v:
        v['maxiter'] = int(o.get('maxiter', 40)) + 30
    return v


def looser(a, b):
    """do all criteria of a end a run at least as early as those of b?"""
    for k in STOPS:
        x, y = opt_of(a, k), opt_of(b, k)
        if k == 'maxtime':
            # the number of clock readings may depend on it
            if x != y:
                return False
        elif k == 'maxiter':
            if x > y:
                return False
        elif x < y:
            return False
    return True


@register
class C23(Prop):
    id = 'C23'
    quick = 2200
    thorough = 45000
    rule = (
        'one optimizer with 1-2 runs under a fault plan, repeated with 1-3 '
        'other settings of the stopping criteria; evaluations and state of '
        'the shorter run compared bit by bit with the beginning of the longer '
        'one, and lengths compared where all criteria are at least as loose'
    )
    nt_rule = 'two of the compared runs differ in length, the shorter with at least two evaluations'

    def gen(self, r, index):
        c = gen.client(
            r,
            maxiter=30,
            nruns=int(gen.pick(r, [1, 2], p=[0.75, 0.25])),
            fault_kw={'p_abort': 0.15},
        )
        if r.random() < 0.4:
            gen.tolerances(r, c)
        if r.random() < 0.35:
            for rs in c['runs']:
                rs['latency'] = gen.fl(10.0 ** r.uniform(-3, 1, 3))
        n = int(r.integers(1, 4))
        return {
            'clients': [c],
            'variants': [stop_options(r, c['options']) for _ in range(n)],
        }

    def run(self, sc, tmp):
        out = Out()
        base = {k: v for k, v in sc.items() if k != 'variants'}
        worlds = []
        for v in [{}] + list(sc['variants']):
            s = copy.deepcopy(base)
            o = s['clients'][0]['options']
            o.update(v)
            if o.get('stepback_strategy') == 'refine':
                o['maxiter'] = min(o['maxiter'], 10)
            w = simulate(s, tmp)
            out.add_world(w, w.clients)
            for r in w.clients[0].runs:
                out.sig.append(run_sig(w.clients[0], r))
            worlds.append((v, w.clients[0]))
        for i in range(len(worlds)):
            for j in range(i):
                d = self.pair(worlds[i][1], worlds[j][1], out)
                if d:
                    out.viol.append(
                        viol(
                            'C23',
                            d[0],
                            worlds[i][1],
                            d[1],
                            d[2],
                            f'{worlds[i][0]} and {worlds[j][0]}: {d[3]}',
                        )
                    )
                    return out
        return out

    def pair(self, ca, cb, out):
        for ri, (a, b) in enumerate(zip(ca.runs, cb.runs)):
            if hung(a) or hung(b):
                return None
            if len(a.evals) > len(b.evals):
                a, b = b, a
            n = len(a.evals)
            if 2 <= n < len(b.evals):
                out.nontrivial = True
            for i, (p, q) in enumerate(zip(a.evals, b.evals)):
                if not eqv(p.x, q.x):
                    return (
                        'criteria-steer',
                        ri,
                        i,
                        f'evaluated {p.x.tolist()} and {q.x.tolist()}',
                    )
                for k in p.snap:
                    if (i == 0 and k in SKIP0) or (
                        i <= 1 and k == 'tr_ratio'
                    ):
                        continue
                    if not eqv(p.snap[k], q.snap[k]):
                        return (
                            'criteria-steer',
                            ri,
                            i,
                            f'{k}: {p.snap[k]!r} and {q.snap[k]!r}',
                        )
            if n == 0:
                continue
            # where the shorter one ended
            if a.exc is None:
                fin = (
                    b.evals[n].snap
                    if len(b.evals) > n
                    else (b.final if b.exc is None else None)
                )
                if fin is not None:
                    for k in ('x', 'fval', 'grad', 'hess', 'delta', 'x_min',
                              'fval_min'):
                        if not eqv(a.final[k], fin[k]):
                            return (
                                'criteria-change-result',
                                ri,
                                n - 1,
                                f'{k}: {a.final[k]!r} and {fin[k]!r}',
                            )
            elif len(b.evals) > n:
                return (
                    'criteria-change-failure',
                    ri,
                    n - 1,
                    f'one run failed with {a.exc!r}, the other went on',
                )
            oa, ob = options_plain(a.options), options_plain(b.options)
            if n < len(b.evals) and a.exc is None and looser(ob, oa):
                # all criteria of the longer run are at least as loose
                return (
                    'looser-criteria-prolong',
                    ri,
                    n - 1,
                    f'{n} and {len(b.evals)} evaluations',
                )
        return None


RESUMABLE = ('BFGS', 'DFP', 'SR1', 'BG', 'BB', 'Broyden', 'FX')


@register
class C24(Prop):
    id = 'C24'
    quick = 2200
    thorough = 45000
    rule = (
        'a run is repeated up to a chosen evaluation at which it is killed by '
        'an exception, an interrupt or the iteration budget; a new optimizer '
        'gets the last iterate, radius and approximation and has to evaluate '
        'what the uninterrupted run evaluates from there on'
    )
    nt_rule = 'the resumed run made at least three evaluations that the uninterrupted one made as well'

    def gen(self, r, index):
        while True:
            c = gen.client(
                r,
                maxiter=30,
                fault_kw={'p_abort': 0.0, 'kinds': ['f_bad'], 'start': 0.0},
                fams=[
                    'quad', 'rosen', 'trig', 'quartic', 'log', 'lies',
                    'fletcher', 'expfit', 'linlsq', 'rosenlsq',
                ],
                p_none=0.35,
            )
            h = c['hess']
            if h is None or h['cls'] in RESUMABLE:
                break
        c['options']['maxiter'] = max(6, c['options']['maxiter'])
        if c['options'].get('stepback_strategy') == 'refine':
            c['options']['maxiter'] = 6
        if r.random() < 0.7:
            for k in ('fatol', 'frtol', 'xtol', 'gatol', 'grtol'):
                c['options'][k] = 0.0
        return {
            'clients': [c],
            'cut': {
                'at': int(r.integers(0, 60)),
                'how': gen.pick(r, ['raise', 'kbd', 'mem', 'maxiter', 'maxiter']),
            },
        }

    def valid(self, sc):
        h = sc['clients'][0]['hess'] if sc.get('clients') else None
        return (
            super().valid(sc)
            and len(sc['clients'][0]['runs']) == 1
            and 'cut' in sc
            and (h is None or h['cls'] in RESUMABLE)
        )

    def run(self, sc, tmp):
        out = Out()
        base = {k: v for k, v in sc.items() if k != 'cut'}
        w = simulate(base, tmp)
        out.add_world(w, w.clients)
        u = w.clients[0].runs[0]
        out.sig.append(run_sig(w.clients[0], u))
        n = len(u.evals)
        if n < 3 or hung(u) or u.exc is not None:
            return out
        how = sc['cut']['how']
        k = 1 + sc['cut']['at'] % (n - 2)
        # the run that is stopped at evaluation k
        s = copy.deepcopy(base)
        cs = s['clients'][0]
        if how == 'maxiter':
            cs['options']['maxiter'] = k
            off = k
        else:
            cs['runs'][0]['faults'].append({'k': k, 'kind': how})
            off = k - 1
        w1 = simulate(s, tmp)
        out.add_world(w1, w1.clients)
        a = w1.clients[0].runs[0]
        fin = a.final
        if hung(a) or (how == 'maxiter' and int(fin['exitflag']) > 0):
            return out
        x, d = fin['x'], fin['delta']
        if not (
            d is not None
            and np.isfinite(d)
            and d >= EPS
            and any(eqv(x, e.x) for e in u.evals[:n])
        ):
            out.probes['not_resumable'] += 1
            return out
        # ... and the one that takes over
        s = copy.deepcopy(base)
        cs = s['clients'][0]
        cs['options']['delta_init'] = float(d)
        rs = cs['runs'][0]
        rs['x0'] = gen.fl(x)
        rs.pop('x0_dtype', None)
        rs.pop('hess0', None)
        if cs['hess'] is not None:
            rs['hess0'] = [gen.fl(row) for row in fin['hess']]
        fs = []
        for f in rs['faults']:
            f = dict(f)
            f['k'] -= off
            if f.get('until') is not None:
                f['until'] -= off
                if f['until'] >= 1:
                    f['k'] = max(1, f['k'])
            if f['k'] >= 1:
                fs.append(f)
        rs['faults'] = fs
        w2 = simulate(s, tmp)
        out.add_world(w2, w2.clients)
        c = w2.clients[0]
        b = c.runs[0]
        out.sig.append(run_sig(c, b))
        if hung(b) or not b.evals or not eqv(b.evals[0].x, x):
            out.probes['not_resumable'] += 1
            return out
        if len(b.evals) > 1 and len(u.evals) > off + 1:
            # an iterate that was moved off a bound after its evaluation
            p, q = b.evals[1].snap, u.evals[off + 1].snap
            if not all(eqv(p[i], q[i]) for i in ('x', 'fval', 'grad')):
                out.probes['not_resumable'] += 1
                return out
        d = self.compare(u, b, off, out)
        if d:
            out.viol.append(
                viol(
                    'C24',
                    d[0],
                    c,
                    0,
                    d[1],
                    f'{how} at evaluation {k} of {n}: {d[2]}',
                )
            )
        return out

    def compare(self, u, b, off, out):
        same = 0
        for j in range(1, len(b.evals)):
            if off + j >= len(u.evals):
                break
            p, q = b.evals[j], u.evals[off + j]
            if not eqv(p.x, q.x):
                step = np.linalg.norm(q.x - q.snap['x'])
                tol = 1e-7 * step + 1e-12 * np.linalg.norm(q.x)
                if np.linalg.norm(p.x - q.x) <= tol:
                    # rounding
                    out.probes['resumed_up_to_rounding'] += 1
                    return None
                return (
                    'resumed-differently',
                    j,
                    f'evaluated {p.x.tolist()} instead of {q.x.tolist()}',
                )
            same += 1
            out.probes['evaluations_repeated_after_resume'] += 1
        if same >= 3:
            out.nontrivial = True
        m, n = len(u.evals) - off, len(b.evals)
        if b.exc is not None:
            return ('resumed-failed', n - 1, repr(b.exc))
        flag = int(b.final['exitflag'])
        if n < m and flag != -1:
            return (
                'resumed-stops-early',
                n - 1,
                f'{b.final["exitflag"]} after {n - 1} iterations',
            )
        if n > m and m > 2 and int(u.final['exitflag']) > 0:
            return (
                'resumed-goes-on',
                m - 1,
                f'the uninterrupted run ended with {u.final["exitflag"]}',
            )
        return None
