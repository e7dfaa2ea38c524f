"""Properties about the choice of coordinates, units and offsets."""

import copy

import numpy as np

from . import gen
from .base import Prop, register
from .engine import Out
from .model import StepModel, opt_of, options_plain
from .oracles import viol
from .problems import View
from .sim import hung, run_sig, simulate

EPS = np.spacing(1.0)
FAMS = [
    'quad',
    'quad',
    'rosen',
    'trig',
    'quartic',
    'log',
    'fletcher',
    'expfit',
    'linlsq',
    'rosenlsq',
]
SAME = 1e-9  # states that differ by less are the same state
OTHER = 1e-3  # steps from one state that differ by more are other steps


def rel(a, b):
    """largest difference relative to the size of the whole"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return np.inf
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return 0.0 if np.array_equal(a, b, equal_nan=True) else np.inf
    m = max(np.max(np.abs(a), initial=0.0), np.max(np.abs(b), initial=0.0))
    if m == 0:
        return 0.0
    with np.errstate(all='ignore'):
        return float(np.max(np.abs(a - b)) / m)


def boxed(c):
    return np.isfinite(c['lb']).all() and np.isfinite(c['ub']).all()


def unit(c, a):
    """the factor of scaled lengths when variables grow by a factor a

    where all variables have two bounds, steps are divided by the root of the
    distance to one of them"""
    return float(np.sqrt(a)) if boxed(c) else a


def transform(c, view):
    """the client as somebody with other coordinates would write it"""
    c = copy.deepcopy(c)
    c['problem']['view'] = view
    t = View(c['problem'])
    lo = t.vec(np.array(c['lb']))
    hi = t.vec(np.array(c['ub']))
    c['lb'], c['ub'] = gen.fl(np.minimum(lo, hi)), gen.fl(np.maximum(lo, hi))
    for rs in c['runs']:
        rs['x0'] = gen.fl(t.vec(np.array(rs['x0'])))
        if isinstance(rs.get('hess0'), list):
            rs['hess0'] = [gen.fl(row) for row in t.mat(rs['hess0'])]
        for f in rs['faults']:
            if f['kind'] == 'f_bump':
                f['dv'] *= t.b
            if f['kind'] == 'f_huge':
                f['dv'] = f['dv'] * t.b + t.o
    o = c['options']
    if t.a != 1:
        o['delta_init'] = o.get('delta_init', 1.0) * unit(c, t.a)
        o['xtol'] = o.get('xtol', 0) * unit(c, t.a)
        o['grtol'] = o.get('grtol', 0) / t.a
    if t.a != 1 or t.b != 1:
        o['gatol'] = o.get('gatol', 1e-6) * t.b / t.a
        o['fatol'] = o.get('fatol', 1e-8) * t.b
    return c


def hard(pre, sm):
    """is the step from this state a matter of rounding?"""
    h = pre['hess']
    if rel(h, h.T) > 1e-13:
        return True
    with np.errstate(all='ignore'):
        e, v = np.linalg.eigh(0.5 * (sm.b + sm.b.T))
    m = np.max(np.abs(e))
    if m == 0 or not np.isfinite(m):
        return True
    if abs(e[0]) <= 1e-9 * m or np.min(np.abs(e)) <= 1e-10 * m:
        return True
    if e[0] < 0:
        # direction and sign of the most negative curvature
        if len(e) > 1 and e[1] - e[0] <= 1e-6 * m:
            return True
        w = v.T @ sm.sg
        if abs(w[0]) <= 1e-5 * np.linalg.norm(w):
            return True
    if np.any(pre['grad'] == 0) or np.any(
        np.abs(sm.sg) <= 1e-8 * np.max(np.abs(sm.sg))
    ):
        return True
    return False


def corner(pre, sm, lb, ub):
    """does the step meet two bounds at once?"""
    x, s = pre['x'], sm.s
    with np.errstate(all='ignore'):
        br = np.where(s > 0, (ub - x) / s, (lb - x) / s)
    br = np.sort(br[np.isfinite(br) & (s != 0)])
    return bool(np.any(np.diff(br) <= 1e-7 * np.abs(br[1:])))


def theta(sm, pre, o):
    return max(
        opt_of(o, 'theta_max'),
        1 - np.max(np.abs(sm.v * pre['grad']), initial=0.0),
    )


class Pair:
    """a run and its image; walks along both"""

    def __init__(self, ca, a, cb, b, out):
        self.ca, self.a, self.cb, self.b, self.out = ca, a, cb, b, out
        self.t = View(cb.spec['problem'])
        self.unit = unit(ca.spec, self.t.a)
        self.bounded = np.isfinite(ca.lb).any() or np.isfinite(ca.ub).any()
        self.oa = options_plain(a.options)
        self.ob = options_plain(b.options)

    def image(self, s):
        t = self.t
        return {
            'x': t.vec(s['x']),
            'fval': t.b * s['fval'] + t.o,
            'grad': t.covec(s['grad']),
            'hess': t.mat(s['hess']),
            'x_min': t.vec(s['x_min']),
        }

    def units(self, s):
        """scaled lengths (and radii) change with the unit of x only"""
        return self.unit * s

    def same_state(self, s, z):
        m = self.image(s)
        t = self.t
        for k in ('x', 'grad', 'hess'):
            if rel(m[k], z[k]) > SAME:
                return False
        f = abs(m['fval'] - t.o)
        if not abs(m['fval'] - z['fval']) <= SAME * f + 20 * EPS * (
            f + abs(t.o)
        ):
            return False
        return abs(self.units(s['delta_iter']) - z['delta_iter']) <= SAME * (
            z['delta_iter']
        )

    def fnoise(self, p, q):
        t = self.t
        return 20 * EPS * (
            abs(t.b * p.snap['fval'])
            + abs(t.b * p.f)
            + abs(q.snap['fval'])
            + abs(q.f)
            + abs(t.o)
        )

    def touching(self, e, c):
        x = np.array([e.x, e.snap['x'] if e.k else e.x])
        d = np.minimum(x - c.lb, c.ub - x)
        return bool(np.any(d <= 1e-9 * np.maximum(np.abs(x), 1.0)))

    def walk(self):
        a, b, out = self.a, self.b, self.out
        t = self.t
        ca, cb = self.ca, self.cb
        na, nb = len(a.evals), len(b.evals)
        for i in range(min(na, nb)):
            p, q = a.evals[i], b.evals[i]
            if t.a != 1 and (self.touching(p, ca) or self.touching(q, cb)):
                # how far iterates are moved off bounds has no unit
                return None
            if i == 0:
                if rel(t.vec(p.x), q.x) > 1e-12:
                    return i, (
                        f'started at {q.x.tolist()} instead of '
                        f'{t.vec(p.x).tolist()}'
                    )
                continue
            if not self.same_state(p.snap, q.snap):
                out.probes['diverged_by_rounding'] += 1
                return None
            sa = StepModel(p.snap, p.x, self.ca.lb, self.ca.ub)
            sb = StepModel(q.snap, q.x, self.cb.lb, self.cb.ub)
            if not (sa.ok and sb.ok) or sa.degenerate or sb.degenerate:
                return None
            if hard(p.snap, sa):
                out.probes['decided_by_rounding'] += 1
                return None
            th = theta(sa, p.snap, self.oa), theta(sb, q.snap, self.ob)
            if self.bounded and abs(th[0] - th[1]) > 1e-9:
                return None
            step = np.linalg.norm(q.x - q.snap['x'])
            tol = OTHER * step + 1e-12 * np.linalg.norm(q.x)
            if np.linalg.norm(q.x - t.vec(p.x)) > tol:
                qa, qb = t.b * sa.qp, sb.qp
                err = t.b * sa.qp_err + sb.qp_err
                if abs(qa - qb) <= 1e-4 * max(abs(qa), abs(qb)) + err:
                    out.probes['steps_tied'] += 1
                    return None
                if corner(p.snap, sa, self.ca.lb, self.ca.ub) or corner(
                    q.snap, sb, self.cb.lb, self.cb.ub
                ):
                    out.probes['decided_by_rounding'] += 1
                    return None
                return i, (
                    f'step to {q.x.tolist()} instead of '
                    f'{t.vec(p.x).tolist()} (model {qb} instead of {qa})'
                )
            out.probes['steps_alike'] += 1
            d = self.decision(i, p, q, sa, sb)
            if d:
                return d if d != 'unsure' else None
        if na != nb:
            return min(na, nb) - 1, f'{nb} evaluations instead of {na}'
        if type(a.exc) is not type(b.exc):
            return na - 1, f'ended with {b.exc!r} instead of {a.exc!r}'
        if a.final['exitflag'] != b.final['exitflag']:
            return na - 1, (
                f"exit flag {b.final['exitflag']!r} instead of "
                f"{a.final['exitflag']!r}"
            )
        out.probes['runs_alike_to_the_end'] += 1
        return None

    def decision(self, i, p, q, sa, sb):
        """what the runs made of the same step"""
        a, b, t = self.a, self.b, self.t
        lasta, lastb = i == len(a.evals) - 1, i == len(b.evals) - 1
        if not p.ok or not q.ok:
            return None
        if np.isfinite(p.f) != np.isfinite(q.f):
            return 'unsure'  # it overflows in these units
        pa = a.final if lasta else a.evals[i + 1].snap
        pb = b.final if lastb else b.evals[i + 1].snap
        if (lasta and a.exc is not None) or (lastb and b.exc is not None):
            if not (lasta and lastb):
                return i, f'{b.exc!r} instead of {a.exc!r}'
            return None
        if np.isfinite(p.f):
            ra, rb = float(pa['tr_ratio']), float(pb['tr_ratio'])
            pred = max(-sb.qp, 0.0)
            noise = (
                (self.fnoise(p, q) + sb.aug_err + t.b * sa.aug_err) / pred
                + (sb.qp_err / pred + t.b * sa.qp_err / pred)
                * max(abs(ra), abs(rb))
                if pred > 0
                else np.inf
            )
            # steps are only as alike as the states they started from
            far = np.linalg.norm(q.x - t.vec(p.x)) / max(
                np.linalg.norm(q.x - q.snap['x']), 1e-300
            )
            noise += 1e-5 + 1e-5 * max(abs(ra), abs(rb)) + 1e3 * far
            if not noise < 1e-2:
                return 'unsure'
            if abs(ra - rb) > noise * 10:
                return i, f'ratio {rb} instead of {ra}'
            o = self.oa
            for thr in (0.0, opt_of(o, 'mu'), opt_of(o, 'eta')):
                if min(abs(ra - thr), abs(rb - thr)) <= noise * 10:
                    return 'unsure'
        d = float(q.snap['delta_iter'])
        if abs(sb.nss - 0.9 * d) <= 1e-4 * d:
            return 'unsure'
        if lasta != lastb:
            # only one of them stopped
            c, r, s, e = (
                (self.cb, b, sb, q) if lastb else (self.ca, a, sa, p)
            )
            return self.stopped(i, c, r, s, e)
        ma, mb = self.image(pa), pb
        st = np.linalg.norm(q.x - q.snap['x'])
        for k in ('x', 'x_min'):
            if np.linalg.norm(ma[k] - mb[k]) > OTHER * st + 1e-9 * (
                np.linalg.norm(mb[k])
            ):
                if k == 'x_min' and self.best_unsure(i):
                    return 'unsure'
                return i, (
                    f'{k} became {mb[k].tolist()} instead of '
                    f'{ma[k].tolist()}'
                )
        da, db = self.units(float(pa['delta'])), float(pb['delta'])
        # (next to a bound scaled lengths differ more than the steps)
        dn = abs(self.units(sa.nss) - sb.nss) + sb.nss_err
        if abs(da - db) > OTHER * max(da, db) + dn:
            return i, f'radius became {db} instead of {da}'
        return None

    def best_unsure(self, i):
        """are the two smallest values of the run equal up to rounding?"""
        t = self.t
        f = [t.b * e.f for e in self.a.evals[: i + 1] if e.ok]
        f = sorted(v for v in f if np.isfinite(v))
        if len(f) < 2:
            return False
        m = max(abs(f[0]), abs(f[1]), abs(t.o))
        return f[1] - f[0] <= 1e-8 * m

    def stopped(self, i, c, r, sm, e):
        """one of the two runs stopped: was it a close decision?"""
        flag = int(r.final['exitflag'])
        o = self.ob if r is self.b else self.oa
        if flag == -5:
            return 'unsure'
        if flag == -1:
            return i, 'only one of them used up its iterations'
        if flag == 1:
            df = abs(e.f - e.snap['fval'])
            lim = opt_of(o, 'fatol') + opt_of(o, 'frtol') * abs(
                e.snap['fval']
            )
            ns = 100 * EPS * (abs(e.f) + abs(e.snap['fval'])) + 1e-4 * lim
            if abs(df - lim) <= ns + 1e-4 * df:
                return 'unsure'
            return i, f'only one of them stopped for {df} < {lim}'
        if flag == 2:
            lim = opt_of(o, 'xtol')
            if abs(sm.nss - lim) <= 1e-3 * lim + sm.nss_err:
                return 'unsure'
            return i, f'only one of them stopped for {sm.nss} < {lim}'
        if flag == 3:
            g = np.linalg.norm(r.final['grad'])
            lims = (
                opt_of(o, 'gatol'),
                opt_of(o, 'grtol') * abs(e.snap['fval']),
            )
            # a gradient near a stationary point is rounding
            big = max(
                np.linalg.norm(q.g)
                for q in r.evals
                if q.ok and np.isfinite(q.g).all()
            )
            if any(
                abs(g - v) <= 1e-3 * v + 1e-8 * big for v in lims
            ):
                return 'unsure'
            return i, f'only one of them stopped for {g} <= {lims}'
        return 'unsure'


def view(r, c):
    """other coordinates, offsets or units that must not matter"""
    n = len(c['lb'])
    v = {}
    if r.random() < 0.7 and n > 1:
        v['perm'] = [int(i) for i in r.permutation(n)]
    if r.random() < 0.7:
        v['sign'] = gen.fl(r.choice([-1.0, 1.0], n))
    o = c['options']
    bounded = np.isfinite(c['lb']).any() or np.isfinite(c['ub']).any()
    lsq = c['resfun']
    rel0 = not o.get('grtol') and o.get('frtol') == 0.0
    if lsq:
        if r.random() < 0.7 and not any(
            f['kind'] in ('f_bump', 'f_huge')
            for rs in c['runs']
            for f in rs['faults']
        ):
            v['rows'] = int(r.integers(1, 1 << 20))
        return v
    if r.random() < 0.3 and rel0:
        v['o'] = float(r.normal() * 10.0 ** r.uniform(-2, 2))
    exact = c['hess'] is None or (
        c['hess']['cls'] in ('BFGS', 'DFP', 'Broyden', 'SR1')
        and all(isinstance(rs.get('hess0'), list) for rs in c['runs'])
    )
    if exact and o.get('subspace_solver') != 'scg' and r.random() < 0.5:
        # how far steps stay away from bounds depends on the gradient
        v['b'] = float(2.0 ** r.integers(0 if bounded else -30, 31))
        if not bounded and r.random() < 0.7:
            v['a'] = float(2.0 ** r.integers(-16, 17))
        elif boxed(c) and r.random() < 0.7:
            # the distance to bounds enters by its root
            v['a'] = float(4.0 ** r.integers(-5, 6))
    return v


@register
class C27(Prop):
    id = 'C27'
    quick = 4500
    thorough = 90000
    rule = (
        'one optimizer with 1-2 runs under a fault plan, repeated with the '
        'variables in another order and mirrored, a constant added to the '
        'function value, other units of the function value and (without '
        'bounds or with two bounds each) of the variables, residuals in '
        'another order and sign; '
        'as long as both runs are in the same state up to rounding, steps, '
        'decisions and results are compared'
    )
    nt_rule = 'at least three steps were compared'

    def gen(self, r, index):
        c = gen.client(
            r,
            maxiter=30,
            nruns=int(gen.pick(r, [1, 2], p=[0.85, 0.15])),
            fams=FAMS,
            p_none=0.6,
            fault_kw={
                'p_abort': 0.08,
                'kinds': ['f_bad', 'f_bad', 'f_bump', 'f_huge'],
            },
            bmode=gen.pick(
                r, ['box', 'mixed', 'none', 'onesided', 'tight'],
                p=[0.3, 0.2, 0.3, 0.1, 0.1],
            ),
        )
        c.pop('rep', None)
        c['problem'].pop('rankdef', None)
        o = c['options']
        if o.get('stepback_strategy') == 'refine':
            o['stepback_strategy'] = gen.pick(
                r, ['reflect', 'truncate', 'mixed']
            )
        if r.random() < 0.3:
            o['frtol'] = 0.0
            o.pop('grtol', None)
        if c['hess'] is not None and c['hess']['cls'] in (
            'BFGS', 'DFP', 'Broyden', 'SR1',
        ) and r.random() < 0.5:
            n = len(c['lb'])
            for rs in c['runs']:
                m = r.normal(size=(n, n))
                m = m @ m.T + 0.1 * np.eye(n)
                rs['hess0'] = [gen.fl(row) for row in 0.5 * (m + m.T)]
        n = int(gen.pick(r, [1, 2], p=[0.7, 0.3]))
        vs = [view(r, c) for _ in range(n)]
        return {'clients': [c], 'views': [v or {'sign': [-1.0] * len(
            c['lb'])} for v in vs]}

    def valid(self, sc):
        if not super().valid(sc):
            return False
        c = sc['clients'][0]
        n = len(c['lb'])
        for v in sc['views']:
            if sorted(v.get('perm', range(n))) != list(range(n)):
                return False
            if len(v.get('sign', [1] * n)) != n:
                return False
            if v.get('o') and (
                c['options'].get('frtol') != 0.0 or c['options'].get('grtol')
            ):
                return False
            if v.get('a', 1) != 1 and (
                (np.isfinite(c['lb']).any() or np.isfinite(c['ub']).any())
                and not (boxed(c) and np.log2(v['a']) % 2 == 0)
            ):
                return False
            if v.get('b', 1) != 1 or v.get('a', 1) != 1:
                if c['options'].get('subspace_solver') == 'scg':
                    return False
                if c['hess'] is not None and not all(
                    isinstance(rs.get('hess0'), list) for rs in c['runs']
                ):
                    return False
        return True

    def run(self, sc, tmp):
        out = Out()
        base = {k: v for k, v in sc.items() if k != 'views'}
        w0 = simulate(base, tmp)
        out.add_world(w0, w0.clients)
        ca = w0.clients[0]
        for r in ca.runs:
            out.sig.append(run_sig(ca, r))
        for v in sc['views']:
            s = dict(base, clients=[transform(base['clients'][0], v)])
            w = simulate(s, tmp)
            out.add_world(w, w.clients)
            for k in v:
                out.faults['view_' + k] += 1
            cb = w.clients[0]
            for ri, (a, b) in enumerate(zip(ca.runs, cb.runs)):
                if hung(a) or hung(b):
                    break
                k0 = out.probes['steps_alike']
                d = Pair(ca, a, cb, b, out).walk()
                if d:
                    out.viol.append(
                        viol('C27', 'coordinates-matter', cb, ri, d[0],
                             f'{v}: {d[1]}')
                    )
                    return out
                if out.probes['steps_alike'] - k0 >= 3:
                    out.nontrivial = True
        return out
