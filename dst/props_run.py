"""Properties that are judged on every single run."""

import numpy as np

from . import gen, oracles
from .base import Prop, register
from .engine import Out
from .sim import hung, run_sig, simulate


class RunProp(Prop):
    oracle = None
    maxiter = 40
    p_alias = 0.05
    p_none = 0.45
    fault_kw = None
    fams = None
    p_multi = 0.3
    rule = (
        'swarm-generated problem, bounds, start, options, Hessian scheme and '
        'fault plan per index; 1-3 runs per optimizer; oracle applied to every '
        'evaluation of every run'
    )

    def client(self, r):
        n = 1
        if r.random() < self.p_multi:
            n = int(r.integers(2, 4))
        c = gen.client(
            r,
            maxiter=self.maxiter,
            nruns=n,
            p_alias=self.p_alias,
            p_none=self.p_none,
            fault_kw=self.fault_kw,
            fams=self.fams,
        )
        gen.decorate(r, c)
        return c

    def gen(self, r, index):
        return {'clients': [self.client(r)]}

    def run(self, sc, tmp):
        out = Out()
        w = simulate(sc, tmp)
        self.judge(out, w)
        out.add_world(w, w.clients)
        return out

    def judge(self, out, w):
        for c in w.clients:
            for ri, r in enumerate(c.runs):
                out.sig.append(run_sig(c, r))
                if any(e.faults for e in r.evals) and len(r.evals) > 1:
                    out.nontrivial = True
                if hung(r) and self.id != 'C06':
                    continue
                out.viol += [
                    v for v in self.check(c, ri, r) if v['prop'] == self.id
                ]

    def check(self, c, ri, r):
        return type(self).oracle(c, ri, r)


@register
class C01(RunProp):
    id = 'C01'
    oracle = staticmethod(oracles.feasible)
    quick = 4500
    thorough = 90000
    fault_kw = {'p_abort': 0.05}

    def client(self, r):
        c = super().client(r)
        if r.random() < 0.08:
            gen.infeasible_start(r, c)
        elif r.random() < 0.03:
            gen.unbounded(r, c)
        return c


@register
class C02(RunProp):
    id = 'C02'
    oracle = staticmethod(oracles.iterate)
    quick = 4500
    thorough = 90000
    fault_kw = {'p_abort': 0.35}
    p_alias = 0.15


@register
class C03(RunProp):
    id = 'C03'
    oracle = staticmethod(oracles.best)
    quick = 4500
    thorough = 90000
    fault_kw = {'p_abort': 0.25}
    p_multi = 0.5
    p_alias = 0.15


@register
class C04(RunProp):
    id = 'C04'
    oracle = staticmethod(oracles.radius)
    quick = 4500
    thorough = 90000
    fault_kw = {'p_abort': 0.05}


@register
class C05(RunProp):
    id = 'C05'
    oracle = staticmethod(oracles.exits)
    quick = 4500
    thorough = 90000
    fault_kw = {'p_abort': 0.2}
    p_multi = 0.5

    def client(self, r):
        c = super().client(r)
        gen.tolerances(r, c)
        return c


@register
class C06(RunProp):
    id = 'C06'
    oracle = staticmethod(oracles.budget)
    wall_hang = True
    quick = 4500
    thorough = 90000
    fault_kw = {'p_abort': 0.05}
    nt_rule = 'a fault fired or the run used at least three evaluations'

    def judge(self, out, w):
        super().judge(out, w)
        if any(len(r.evals) > 3 for c in w.clients for r in c.runs):
            out.nontrivial = True


@register
class C08(RunProp):
    id = 'C08'
    oracle = staticmethod(oracles.nonfinite)
    quick = 4500
    thorough = 90000
    p_none = 0.3

    def client(self, r):
        c = super().client(r)
        n = len(c['lb'])
        for rs in c['runs']:
            if r.random() < 0.6:
                k = int(r.integers(0, 12))
                f = gen.fault(
                    r, gen.pick(r, ['f_bad', 'f_bad', 'g_bad', 'h_bad']), k, n
                )
                if r.random() < 0.3:
                    f['until'] = k + int(r.integers(1, 4))
                rs['faults'].append(f)
        u = r.random()
        if u < 0.05:
            # a radius without a meaning ...
            c['options']['delta_init'] = float(10.0 ** r.uniform(90, 305))
        elif u < 0.1:
            # ... or one that gets there
            c['options'].update(
                gamma2=float(10.0 ** r.uniform(1, 12)), fatol=0.0, frtol=0.0,
                gatol=0.0, grtol=0.0, maxiter=60,
            )
            c['options'].pop('xtol', None)
        elif u < 0.12:
            gen.unbounded(r, c)
        return c


@register
class C15(RunProp):
    id = 'C15'
    oracle = staticmethod(oracles.exceptions)
    quick = 4500
    thorough = 90000
    p_none = 0.3

    def client(self, r):
        c = super().client(r)
        n = len(c['lb'])
        for rs in c['runs']:
            if r.random() < 0.85:
                k = int(r.integers(0, 12)) if r.random() < 0.9 else 0
                if r.random() < 0.55:
                    f = {'k': k, 'kind': gen.pick(r, gen.ABORT_KINDS)}
                else:
                    f = gen.fault(r, 'malformed', k, n)
                rs['faults'].append(f)
            if r.random() < 0.25:
                rs['interrupt_at'] = int(10.0 ** r.uniform(0, 3.8))
                rs['interrupt_with'] = gen.pick(r, gen.ASYNC)
        # a clean run afterwards: the optimizer must still be usable
        c['runs'].append(gen.run_spec(r, c, None, {'p_abort': 0, 'start': 0}))
        c['runs'][-1]['faults'] = []
        c['runs'][-1]['clean'] = True
        if r.random() < 0.3:
            c['verbose'] = int(gen.pick(r, [10, 20, 30]))
        return c

    def check(self, c, ri, r):
        out = super().check(c, ri, r)
        if r.spec.get('clean') and not out:
            e0 = r.evals[0] if r.evals else None
            if not r.evals or (
                r.exc is not None
                and e0 is not None
                and np.isfinite(e0.f)
                and np.isfinite(e0.g).all()
                and isinstance(r.exc, ValueError | TypeError | AttributeError)
            ):
                out.append(
                    oracles.viol(
                        'C15', 'unusable-afterwards', c, ri, -1, repr(r.exc)
                    )
                )
        return out


@register
class C19(RunProp):
    id = 'C19'
    oracle = None
    quick = 4500
    thorough = 90000
    fault_kw = {'p_abort': 0.02}
    nt_rule = 'a fault fired, or at least three steps were judged'

    def check(self, c, ri, r):
        from .quality import quality

        v, n = quality(c, ri, r)
        c.w.probes.update(n)
        return v

    def judge(self, out, w):
        super().judge(out, w)
        if sum(w.probes[k] for k in w.probes if k.startswith('judged_')) > 2:
            out.nontrivial = True


@register
class C16(RunProp):
    id = 'C16'
    quick = 4500
    thorough = 90000
    fault_kw = {'p_abort': 0.1}
    nt_rule = 'at least two updates were judged and a fault fired or a step was rejected'

    def client(self, r):
        n = 1 if r.random() < 0.7 else 2
        c = gen.client(
            r, maxiter=self.maxiter, nruns=n, p_none=0.0, fault_kw=self.fault_kw
        )
        if c['hess']['cls'] not in gen.ITERATIVE:
            c['hess'] = gen.iter_hess(r)
            c['resfun'] = False
            if r.random() < 0.15 and c['hess']['cls'] in (
                'BFGS',
                'DFP',
                'Broyden',
            ):
                c['hess']['args']['enforce_curv_cond'] = False
            for rs in c['runs']:
                if isinstance(rs.get('hess0'), str):
                    del rs['hess0']
        gen.decorate(r, c)
        return c

    def check(self, c, ri, r):
        from .hessmodel import iterative

        v, n = iterative(c, ri, r)
        c.w.probes.update(n)
        return v

    def judge(self, out, w):
        super().judge(out, w)
        out.nontrivial = w.probes['updates_judged'] > 1 and (
            out.nontrivial or w.probes['rejected_steps'] > 0
        )


@register
class C17(RunProp):
    id = 'C17'
    quick = 4500
    thorough = 90000
    fault_kw = {'p_abort': 0.1}
    nt_rule = 'at least two updates were judged and a fault fired or a step was rejected'

    def client(self, r):
        n = 1 if r.random() < 0.6 else 2
        lsq = r.random() < 0.5
        while True:
            c = gen.client(
                r,
                maxiter=70 if r.random() < 0.4 else 40,
                nruns=n,
                p_none=0.0,
                fault_kw=self.fault_kw,
                fams=['fletcher', 'expfit', 'linlsq', 'rosenlsq']
                if lsq
                else None,
            )
            if c['hess']['cls'] not in gen.ITERATIVE:
                break
        gen.decorate(r, c)
        if r.random() < 0.5:
            # long runs
            c['options']['fatol'] = c['options']['frtol'] = 0.0
            c['options']['gatol'] = 0.0
        return c

    def check(self, c, ri, r):
        from .hessmodel import composite

        v, n = composite(c, ri, r)
        c.w.probes.update(n)
        return v

    def judge(self, out, w):
        super().judge(out, w)
        out.nontrivial = w.probes['updates_judged'] > 1 and (
            out.nontrivial or w.probes['rejected_steps'] > 0
        )


@register
class C07(RunProp):
    id = 'C07'
    quick = 4000
    thorough = 80000
    nt_rule = 'a finite budget was in force and at least two evaluations happened'
    rule = (
        'simulated clock: per-evaluation latencies, stalls, wall-clock jumps, '
        'budgets; 1-3 runs per optimizer; every continue/stop decision is '
        'recomputed from the simulated clock, and runs with wall-clock jumps '
        'are repeated without them'
    )

    def client(self, r):
        n = int(r.integers(1, 4))
        c = gen.client(
            r, maxiter=40, nruns=n, fault_kw={'p_abort': 0.05}
        )
        gen.decorate(r, c)
        if r.random() < 0.6:
            c['options']['fatol'] = c['options']['frtol'] = 0.0
        mode = gen.pick(r, ['const', 'rand', 'grow', 'spiky'])
        base = 10.0 ** r.uniform(-3, 2)
        for rs in c['runs']:
            m = int(r.integers(1, 9))
            if mode == 'const':
                lat = [base]
            elif mode == 'rand':
                lat = list(base * r.uniform(0.1, 2, m))
            elif mode == 'grow':
                lat = [base * 1.3**i for i in range(20)]
            else:
                lat = [base] * m + [base * 30]
            rs['latency'] = gen.fl(lat)
            for _ in range(int(r.integers(0, 3))):
                rs['faults'].append(
                    gen.fault(r, 'slow', int(r.integers(0, 15)), 1)
                )
            for _ in range(int(r.integers(0, 3))):
                rs['faults'].append(
                    gen.fault(r, 'wall', int(r.integers(0, 15)), 1)
                )
        k = r.random()
        if k < 0.85:
            c['options']['maxtime'] = float(base * 10.0 ** r.uniform(-1, 2))
        if k < 0.1:
            # exact multiples: the decision sits on the edge
            c['options']['maxtime'] = float(base * int(r.integers(1, 20)))
        return c

    def run(self, sc, tmp):
        out = Out()
        w = simulate(sc, tmp)
        self.judge(out, w)
        out.add_world(w, w.clients)
        if w.faults['wall_clock_forward'] or w.faults['wall_clock_back']:
            import copy

            from .sim import diff_runs

            s2 = copy.deepcopy(sc)
            for c in s2['clients']:
                for rs in c['runs']:
                    rs['faults'] = [
                        f for f in rs['faults'] if f['kind'] != 'wall'
                    ]
            w2 = simulate(s2, tmp)
            out.add_world(w2, w2.clients)
            for c, c2 in zip(w.clients, w2.clients):
                for ri, (a, b) in enumerate(zip(c.runs, c2.runs)):
                    d = diff_runs(a, b)
                    if d:
                        out.viol.append(
                            oracles.viol(
                                'C07', 'wall-clock-matters', c, ri, -1, d
                            )
                        )
        for c in w.clients:
            for r in c.runs:
                if (
                    np.isfinite(oracles.opt_of(
                        oracles.options_plain(r.options), 'maxtime'
                    ))
                    and len(r.evals) > 1
                ):
                    out.nontrivial = True
        return out

    def check(self, c, ri, r):
        out = []
        o = oracles.options_plain(r.options)
        maxtime = oracles.opt_of(o, 'maxtime')
        n = len(r.evals) - 1
        flag = int(r.final['exitflag'])

        def state(k):
            """True: must stop for time, False: must not, None: tie"""
            if not np.isfinite(maxtime):
                return False
            el = r.evals[k].t1 - r.t0
            left = maxtime - el
            avg = el / max(k, 1)
            if abs(left - avg) <= 1e-9 * max(abs(maxtime), el, 1.0):
                return None
            return bool(left < avg)

        for k in range(0, n):
            # the run went on after evaluation k
            if state(k) is True:
                out.append(
                    oracles.viol(
                        'C07',
                        'went-on-over-budget',
                        c,
                        ri,
                        k,
                        f'elapsed {r.evals[k].t1 - r.t0!r} of {maxtime!r} '
                        f'after {k} iterations',
                    )
                )
                return out
        if r.exc is not None or n < 0:
            return out
        s = state(n)
        if flag == -2 and s is False:
            out.append(
                oracles.viol(
                    'C07',
                    'stopped-early',
                    c,
                    ri,
                    n,
                    f'elapsed {r.evals[n].t1 - r.t0!r} of {maxtime!r} '
                    f'after {n} iterations',
                )
            )
        last = r.evals[n].t1 - r.evals[n].t0
        over = (r.t1 - r.t0) - maxtime
        if n >= 1 and np.isfinite(maxtime) and over > last + 1e-6 * (
            1 + abs(maxtime)
        ):
            out.append(
                oracles.viol(
                    'C07', 'overrun', c, ri, n, f'by {over!r}, last {last!r}'
                )
            )
        return out
