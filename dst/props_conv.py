"""C18: progress.  Once the faults stop, the optimum is reached."""

import numpy as np

from . import gen
from .base import Prop, register
from .engine import Out
from .oracles import viol
from .problems import box_optimum, make
from .sim import run_sig, simulate

MAXITER = 500
REL = 1e-5
RECOVERABLE = ['f_bad', 'f_bad', 'f_bad', 'f_up', 'f_up', 'slow', 'wall']


def soft_faults(r, n, up):
    """a finite number of evaluations that fail, are slow or wrong upwards"""
    out = []
    m = int(gen.pick(r, [0, 1, 2, 4, 8], p=[0.15, 0.25, 0.25, 0.2, 0.15]))
    used = set()
    for _ in range(m):
        k = 1 + int(10.0 ** r.uniform(0, 1.5))
        d = int(r.integers(1, 7)) if r.random() < 0.3 else 0
        kind = gen.pick(r, RECOVERABLE)
        if kind == 'f_up':
            if not up:
                # wrong residuals would be wrong gradients as well
                continue
            f = {'k': k, 'kind': 'f_bump', 'dv': float(10.0 ** r.uniform(-6, 6))}
            if r.random() < 0.15:
                f = {'k': k, 'kind': 'f_huge', 'dv': 1e150}
        else:
            f = gen.fault(r, kind, k, n)
        if kind not in ('slow', 'wall'):
            if used & set(range(k, k + d + 1)) or len(used) + d > 13:
                continue
            used |= set(range(k, k + d + 1))
        if d:
            f['until'] = k + d
        out.append(f)
    return out


@register
class C18(Prop):
    id = 'C18'
    quick = 3000
    thorough = 60000
    rule = (
        'strictly convex quadratic or linear least-squares problem in a box, '
        'any sound configuration; a finite number of non-finite, slow or '
        'upwards wrong replies, or an abort (exception, interrupt at a '
        'random line) followed by a restart from the last or best point; '
        'final value compared with the exact optimum (active-set enumeration)'
    )
    nt_rule = 'a fault fired or the start was at least 1e-6 above the optimum'

    def gen(self, r, index):
        n = int(gen.pick(r, [1, 2, 3, 4, 5], p=[0.1, 0.35, 0.25, 0.2, 0.1]))
        lb, ub, x0 = gen.bounds(
            r, n, gen.pick(r, ['box', 'mixed', 'none', 'onesided'])
        )
        ls = r.random() < 0.35
        lo = np.where(np.isfinite(lb), lb, np.array(x0) - 3)
        hi = np.where(np.isfinite(ub), ub, np.array(x0) + 3)
        p = {
            'fam': 'linlsq' if ls else 'quad',
            'n': n,
            'seed': int(r.integers(1 << 30)),
            'c': gen.fl(lo + r.uniform(-0.5, 1.5, n) * (hi - lo)),
        }
        if ls:
            p['extra'] = int(r.integers(2, 6))
            if r.random() < 0.7:
                p['noise'] = float(10.0 ** r.uniform(-3, 0))
            for _ in range(50):
                if np.linalg.cond(make(p).j) < 12:
                    break
                p['seed'] = int(r.integers(1 << 30))
        else:
            p['kind'] = 'spd'
            p['cond'] = float(10.0 ** r.uniform(0, 1.5))
            if r.random() < 0.2:
                p['diag'] = True
        if r.random() < 0.25:
            p['fscale'] = float(10.0 ** r.uniform(-2, 2))
        if not ls and r.random() < 0.25:
            p['shift'] = float(r.normal() * 10.0 ** r.uniform(-2, 2))
        # configuration
        o = {'maxiter': MAXITER}
        o['subspace_solver'] = gen.pick(r, gen.SUBS)
        o['stepback_strategy'] = gen.pick(
            r, ['reflect', 'reflect_single', 'truncate', 'mixed']
        )
        if r.random() < 0.02:
            o['stepback_strategy'] = 'refine'
            if o['subspace_solver'] == 'scg':
                o['subspace_solver'] = '2D'
        if r.random() < 0.4:
            o['delta_init'] = float(10.0 ** r.uniform(-2, 2))
        if r.random() < 0.3:
            o['theta_max'] = float(r.uniform(0.5, 0.99))
        if r.random() < 0.3:
            o['mu'] = float(r.uniform(0.05, 0.3))
            o['eta'] = float(r.uniform(0.6, 0.9))
        if r.random() < 0.3:
            o['gamma1'] = float(r.uniform(0.15, 0.5))
            o['gamma2'] = float(r.uniform(1.5, 3.0))
        if r.random() < 0.6:
            o['fatol'] = 0.0
            o['frtol'] = 0.0
        k = r.random()
        resfun = False
        it = [
            {'cls': 'BFGS', 'args': {}},
            {'cls': 'DFP', 'args': {}},
            {'cls': 'SR1', 'args': {}},
            {'cls': 'Broyden', 'args': {'phi': float(r.uniform(0, 1))}},
        ]
        h = None
        if ls and k < 0.6:
            resfun = True
            c = gen.pick(r, ['FX', 'SSM', 'TSSM', 'GNSBFGS'])
            a = {}
            if c == 'FX':
                a = {'happ': gen.pick(r, it[:1])}
            h = {'cls': c, 'args': a}
            if c == 'GNSBFGS':
                # for vanishing curvature of the residuals this scheme adds
                # |r| I to the Gauss-Newton matrix: tiny steps by design
                # while the residuals are large
                q = make(p)
                res, jac = q.residuals(np.array(x0))
                if np.linalg.norm(res) > 3 * np.linalg.eigvalsh(jac.T @ jac)[0]:
                    h = {'cls': 'SSM', 'args': {}}
        elif k < 0.75:
            h = gen.pick(r, it)
        elif k < 0.85:
            c = gen.pick(r, ['HybridFixed', 'HybridFraction'])
            a = {'happ': gen.pick(r, it)}
            if c == 'HybridFixed':
                a['switch_iteration'] = int(r.integers(1, 8))
            h = {'cls': c, 'args': a}
        # with the tolerances at zero, failures may shrink the radius without
        # ending the run early
        tight = o.get('fatol') == 0.0

        def soft():
            f = soft_faults(r, n, not resfun)
            if not tight:
                f = [x for x in f if x['kind'] in ('slow', 'wall')]
            return f

        c = {
            'problem': p,
            'lb': lb,
            'ub': ub,
            'options': o,
            'hess': h,
            'resfun': resfun,
            'verbose': 40,
            'runs': [{'x0': x0, 'faults': soft()}],
        }
        if r.random() < 0.3:
            a = c['runs'][0]
            if r.random() < 0.5:
                a['interrupt_at'] = int(10.0 ** r.uniform(1, 4.3))
            else:
                a['faults'].append(
                    {
                        'k': int(r.integers(0, 14)),
                        'kind': gen.pick(r, gen.ABORT_KINDS),
                    }
                )
            c['runs'].append(
                {
                    'x0': x0,
                    'x0_from': gen.pick(r, ['last', 'best']),
                    'faults': soft() if r.random() < 0.3 else [],
                }
            )
        if r.random() < 0.3:
            c['runs'][-1]['latency'] = gen.fl(10.0 ** r.uniform(-3, 2, 3))
        return {'clients': [c]}

    def valid(self, sc):
        if not super().valid(sc):
            return False
        c = sc['clients'][0]
        return c['options'].get('maxiter') == MAXITER and 'c' in c['problem']

    def run(self, sc, tmp):
        out = Out()
        w = simulate(sc, tmp)
        out.add_world(w, w.clients)
        c = w.clients[0]
        for r in c.runs:
            out.sig.append(run_sig(c, r))
        r = c.runs[-1]
        p = make(c.spec['problem'])
        f0 = p.value(np.array(c.spec['runs'][0]['x0'], dtype=float))[0]
        fs, xs = box_optimum(p, c.lb, c.ub)
        out.nontrivial = f0 - fs > 1e-6 or any(
            e.faults for q in c.runs for e in q.evals
        )
        if r.exc is not None:
            # an abort that the scenario asked for ends the last run
            if not (
                'interrupt_at' in r.spec
                or any(f['kind'] in gen.ABORT_KINDS for f in r.spec['faults'])
            ):
                out.viol.append(
                    viol(
                        'C18',
                        'run-failed',
                        c,
                        len(c.runs) - 1,
                        len(r.evals) - 1,
                        repr(r.exc),
                    )
                )
            return out
        gap = p.value(np.asarray(r.result[1], dtype=float))[0] - fs
        o = c.spec['options']
        rel = REL
        if (
            o['subspace_solver'] == 'scg'
            and o['stepback_strategy'] == 'reflect_single'
        ):
            # truncated conjugate gradients with a single reflection can
            # crawl along a bound (3 of 60000): only progress is claimed
            rel = 2e-2
        tol = rel * (f0 - fs) + 1e-10 * (abs(fs) + abs(f0))
        if o.get('fatol') != 0.0:
            tol += 1e-6 + 1e-6 * abs(fs)
        # a gradient below the absolute tolerance
        hm = p.value(np.asarray(xs))[2]
        tol += 10 * 1e-12 / np.linalg.eigvalsh(hm)[0]
        gap0 = gap / tol if tol > 0 else 0.0
        out.probes['iterations_to_optimum'] += int(r.final['iteration'])
        out.stat = (
            float(gap0),
            int(r.final['iteration']),
            int(r.final['exitflag']),
        )
        if not gap <= tol:
            out.viol.append(
                viol(
                    'C18',
                    'optimum-not-reached',
                    c,
                    len(c.runs) - 1,
                    len(r.evals) - 1,
                    f'value {gap!r} above the optimum {fs!r} (start '
                    f'{f0 - fs!r} above) after {r.final["iteration"]} '
                    f'iterations, flag {r.final["exitflag"]}, at '
                    f'{np.asarray(r.result[1]).tolist()}, optimum at '
                    f'{xs.tolist()}',
                )
            )
        return out
