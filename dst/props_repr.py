"""Properties about how a problem is written down."""

import copy

import numpy as np

from . import gen
from .base import Prop, register
from .engine import Out
from .model import DEFAULTS, StepModel
from .oracles import close, viol
from .sim import eqv, hung, run_sig, simulate

LAYOUTS = ['F', 'strided', 'neg', 'ro', 'sub']
INTS = ['i8', 'i4', 'i2', 'i1', 'u1', 'u8', '>i4']
FLOATS = ['f4', 'f2', '>f8', '>f4', 'g']
UNSTABLE = ('ev', 'cond')


def array_kind(r, rnd):
    k = r.random()
    if k < 0.25 or (rnd is None and k < 0.6):
        return gen.pick(r, LAYOUTS)
    if rnd == 'i' and k < 0.8:
        return gen.pick(r, INTS)
    return gen.pick(r, FLOATS)


def option_kinds(r, o):
    how = {}
    for k in o:
        h = []
        if r.random() < 0.5:
            h.append('key')
        if k in ('subspace_solver', 'stepback_strategy'):
            if r.random() < 0.5:
                h.append('enum')
        elif k == 'maxiter':
            if r.random() < 0.5:
                h.append('num' + gen.pick(r, ['', 'float']))
        elif k != 'history_file' and r.random() < 0.5:
            h.append('num:' + gen.pick(r, ['int', 'i1', 'u1', 'i8', 'f2', 'f4', 'f8']))
        if h:
            how[k] = ' '.join(h)
    return how


def representation(r, c, rnd=None):
    rep = {}
    for k in ('_lb', '_ub', '_x0', '_hess0', '_reply'):
        if r.random() < 0.55:
            rep[k] = array_kind(r, rnd)
    if r.random() < 0.15:
        rep['_x0'] = gen.pick(r, ['list', 'tuple'])
    if r.random() < 0.6:
        rep['_f'] = gen.pick(
            r, ['int', 'f8', 'f4', 'f2', 'i8', 'i1', 'u1', 'u8', 'g']
        )
    if r.random() < 0.5:
        rep['_opts'] = option_kinds(r, c['options'])
    if r.random() < 0.25:
        d = [k for k in DEFAULTS if k != 'history_file']
        rep['_dflt'] = [k for k in d if r.random() < 0.5]
    if r.random() < 0.3:
        rep['_hist'] = True
    return rep or {'_reply': 'F'}


def integral(r, c, rnd):
    """numbers that fit other data types"""
    with np.errstate(all='ignore'):
        def cast(a):
            return np.round(a) if rnd == 'i' else np.asarray(a).astype('f4')

        lb, ub = np.array(c['lb']), np.array(c['ub'])
        if r.random() < 0.75:
            if rnd == 'i':
                lb, ub = np.floor(lb), np.ceil(ub)
                ub = np.where(ub - lb < 1, lb + 1, ub)
            else:
                l4, u4 = cast(lb).astype(float), cast(ub).astype(float)
                if np.all(l4 < u4):
                    lb, ub = l4, u4
            c['lb'], c['ub'] = gen.fl(lb + 0.0), gen.fl(ub + 0.0)
        for rs in c['runs']:
            x = np.array(rs['x0'])
            if r.random() < 0.7:
                x = cast(x).astype(float)
            rs['x0'] = gen.fl(np.clip(x, lb, ub) + 0.0)
            if not isinstance(rs.get('hess0', ''), str) and r.random() < 0.7:
                h = cast(np.array(rs['hess0'])).astype(float)
                rs['hess0'] = [gen.fl(row + 0.0) for row in h]
        o = c['options']
        if rnd == 'i' and r.random() < 0.6:
            o['delta_init'] = float(r.integers(1, 101))
            if r.random() < 0.5:
                o['gamma2'] = float(r.integers(2, 4))


def tied(p, q, c):
    """do two steps from the same state differ in nothing that matters?"""
    lb, ub = c.lb, c.ub
    a = StepModel(p.snap, p.x, lb, ub)
    b = StepModel(q.snap, q.x, lb, ub)
    if not (a.ok and b.ok):
        return True
    return bool(
        abs(a.qp - b.qp)
        <= 1e-6 * max(abs(a.qp), abs(b.qp)) + a.qp_err + b.qp_err
    )


def lost(g, h, x, a, b):
    """do two gradients at x differ, which are little more than the rounding
    in the products of residuals and their derivatives?"""
    if g is None or h is None or eqv(g, h):
        return False
    top = 0.0
    for e in a.evals + b.evals:
        if e.sres is not None and e.res is not None and eqv(e.x, x):
            with np.errstate(all='ignore'):
                t = np.abs(e.sres).T.dot(np.abs(e.res))
            top = max(top, float(np.max(t, initial=0.0)))
    return bool(np.max(np.abs(g), initial=0.0) <= 1e-6 * top)


def diff_repr(a, b, c, out, hist=True):
    """first difference between run a and the same run spelled differently"""
    for i, (p, q) in enumerate(zip(a.evals, b.evals)):
        if i and any(
            lost(p.snap[g], q.snap[g], p.snap[x], a, b)
            for g, x in (('grad', 'x'), ('grad_min', 'x_min'))
        ):
            out.probes['equal_up_to_rounding'] += 1
            return None
        if not eqv(p.x, q.x):
            step = np.linalg.norm(p.x - p.snap['x'])
            tol = 1e-7 * step + 1e-12 * np.linalg.norm(p.x)
            if np.linalg.norm(p.x - q.x) <= tol or (i and tied(p, q, c)):
                out.probes['equal_up_to_rounding'] += 1
                return None
            return i, f'evaluated {q.x.tolist()} instead of {p.x.tolist()}'
        if i == 0:
            continue
        out.probes['evaluations_equal'] += 1
        for k in ('x', 'fval', 'grad', 'hess', 'delta', 'delta_iter',
                  'x_min', 'fval_min', 'grad_min'):
            if not close(p.snap[k], q.snap[k], 1e-9):
                return i, f'{k} was {q.snap[k]!r} instead of {p.snap[k]!r}'
    if len(a.evals) != len(b.evals):
        return (
            min(len(a.evals), len(b.evals)) - 1,
            f'{len(b.evals)} evaluations instead of {len(a.evals)}',
        )
    if lost(a.final['grad'], b.final['grad'], a.final['x'], a, b):
        out.probes['equal_up_to_rounding'] += 1
        return None
    k = len(a.evals) - 1
    if type(a.exc) is not type(b.exc):
        return k, f'ended with {b.exc!r} instead of {a.exc!r}'
    for n in ('exitflag', 'converged'):
        if a.final[n] != b.final[n]:
            return k, f'{n} is {b.final[n]!r} instead of {a.final[n]!r}'
    if a.exc is None:
        for n, x, y in zip(
            ('fval', 'x', 'grad', 'hess'), a.ret_copy, b.ret_copy
        ):
            if not close(x, y, 1e-9):
                return k, f'returned {n} {y!r} instead of {x!r}'
    if hist and a.exc is None and a.hist is not None and b.hist is not None:
        for n in sorted(set(a.hist) | set(b.hist)):
            if len(a.hist.get(n, ())) != len(b.hist.get(n, ())):
                return k, f'statistic {n} is incomplete'
            if any(u in n for u in UNSTABLE):
                continue
            try:
                x = np.asarray(a.hist[n], dtype=float)
                y = np.asarray(b.hist[n], dtype=float)
            except (TypeError, ValueError):
                continue
            if not close(x, y, 1e-6):
                return k, f'statistic {n} is {y.tolist()} instead of {x.tolist()}'
    return None


@register
class C25(Prop):
    id = 'C25'
    quick = 2600
    thorough = 50000
    needs_tmp = True
    rule = (
        'one optimizer with 1-2 runs under a fault plan, repeated with the '
        'same numbers in 1-2 other representations (integer, single, half, '
        'extended or byte-swapped arrays, column-major, strided, reversed, '
        'read-only arrays, array subclasses, numpy or integer scalars, '
        'options by name or enum member, integer or numpy option values, '
        'defaults given explicitly, history path as string or Path); '
        'evaluations, state, results, flags and statistics compared'
    )
    nt_rule = 'both runs agreed bit by bit on at least three evaluations'

    def gen(self, r, index):
        c = gen.client(
            r,
            maxiter=25,
            nruns=int(gen.pick(r, [1, 2], p=[0.8, 0.2])),
            fault_kw={'p_abort': 0.1},
        )
        c.pop('rep', None)
        rnd = gen.pick(r, ['i', 'f4', None], p=[0.55, 0.2, 0.25])
        if rnd:
            integral(r, c, rnd)
            if r.random() < 0.8:
                c['round'] = 'i' if rnd == 'i' else gen.pick(r, ['f4', 'f2'])
                if rnd == 'i':
                    p = c['problem']
                    p['fscale'] = float(
                        p.get('fscale', 1.0) * 10.0 ** r.uniform(-1, 2)
                    )
        if r.random() < 0.3:
            gen.tolerances(r, c)
        hist = bool(r.random() < 0.35)
        if hist:
            c['history'] = 'h.h5'
        if r.random() < 0.06:
            # a choice that does not exist
            k = gen.pick(r, ['subspace_solver', 'stepback_strategy'])
            if r.random() < 0.3:
                # a combination that is not possible
                c['options']['subspace_solver'] = 'scg'
                c['options']['stepback_strategy'] = 'refine'
                v = {'_opts': {k: gen.pick(r, ['enum', 'key', 'key enum'])}}
            else:
                c['options'][k] = gen.pick(
                    r, ['3D', 'FULL', 'bounce', '', 'Reflect']
                )
                v = {'_opts': {k: 'key'}}
            return {'clients': [c], 'variants': [v], 'disk': {}}
        n = int(gen.pick(r, [1, 2], p=[0.7, 0.3]))
        return {
            'clients': [c],
            'variants': [representation(r, c, rnd) for _ in range(n)],
            'disk': {},
        }

    def world(self, sc, rep, tmp, i):
        s = {k: v for k, v in copy.deepcopy(sc).items() if k != 'variants'}
        c = s['clients'][0]
        if rep is not None:
            c['rep'] = rep
        if c.get('history'):
            c['history'] = f'{i}-' + c['history']
        o = c['options']
        if o.get('stepback_strategy') == 'refine':
            o['maxiter'] = min(o['maxiter'], 10)
        try:
            return simulate(s, tmp), None
        except (TypeError, ValueError) as e:
            return None, e

    def run(self, sc, tmp):
        out = Out()
        w0, e0 = self.world(sc, None, tmp, 0)
        if w0 is not None:
            out.add_world(w0, w0.clients)
            for r in w0.clients[0].runs:
                out.sig.append(run_sig(w0.clients[0], r))
        for i, v in enumerate(sc['variants']):
            w, e = self.world(sc, v, tmp, i + 1)
            if w is not None:
                out.add_world(w, w.clients)
            for k in v:
                out.faults['rep' + k] += 1
            if e0 is not None or e is not None:
                if type(e) is not type(e0):
                    c = (w0 or w).clients[0]
                    out.viol.append(
                        viol('C25', 'refused-differently', c, 0, -1,
                             f'{v}: {e!r} instead of {e0!r}')
                    )
                    return out
                out.probes['refused_alike'] += 1
                out.nontrivial = True
                continue
            c, ca = w.clients[0], w0.clients[0]
            for ri, (a, b) in enumerate(zip(ca.runs, c.runs)):
                if hung(a) or hung(b):
                    break
                d = diff_repr(a, b, ca, out)
                if d:
                    out.viol.append(
                        viol('C25', 'representation-matters', c, ri, d[0],
                             f'{v}: {d[1]}')
                    )
                    return out
                if len(a.evals) >= 4 and len(b.evals) >= 4 and all(
                    eqv(p.x, q.x)
                    for p, q in zip(a.evals[:4], b.evals[:4])
                ):
                    out.nontrivial = True
        return out
