"""Reference models of the Hessian approximation schemes, along runs."""

import collections

import numpy as np

from .model import EPS, opt_of, options_plain
from .oracles import close, same, transitions, viol

UNSURE = 'unsure'


def nrm(a):
    return float(np.linalg.norm(a))


def broyden(y, s, b, phi, enforce):
    """(candidates of the update, scale, amplification)"""
    u = b @ s
    c = u @ s
    q = y @ s
    n = len(s)
    eq = 40 * n * EPS * nrm(y) * nrm(s)
    ec = 40 * n * EPS * nrm(b) * nrm(s) ** 2
    zero = np.zeros_like(b)
    if abs(q) <= eq or abs(c) <= ec:
        # sign or existence of the update is decided by rounding
        if q == 0 or c == 0 or (q <= -eq and enforce):
            return [zero], 0.0, 1.0
        return UNSURE, 0.0, 1.0
    if q <= 0 and enforce:
        return [zero], 0.0, 1.0
    t1 = np.outer(y, y) / q
    t2 = np.outer(u, u) / c
    upd = t1 - t2
    scale = nrm(t1) + nrm(t2)
    if phi != 0:
        v = y / q - u / c
        t3 = phi * c * np.outer(v, v)
        upd = upd + t3
        scale += nrm(t3) + abs(phi * c) * (nrm(y / q) + nrm(u / c)) ** 2
    amp = 1 + (eq / abs(q) + ec / abs(c)) / EPS / 40
    return [upd], scale, amp


def sr1(y, s, b):
    z = y - b @ s
    d = z @ s
    thr = np.sqrt(EPS) * nrm(s) * nrm(z)
    zero = np.zeros_like(b)
    ez = 20 * len(s) * EPS * (nrm(y) + nrm(b) * nrm(s))
    ed = ez * nrm(s)
    if nrm(z) <= 2 * ez:
        return UNSURE, 0.0, 1.0
    if abs(d) <= thr * (1 - 1e-6) - ed:
        return [zero], 0.0, 1.0
    if abs(d) <= thr * (1 + 1e-6) + ed:
        return UNSURE, 0.0, 1.0
    upd = np.outer(z, z) / d
    amp = 1 + (ed / abs(d) + ez / nrm(z)) / EPS
    return [upd], nrm(upd), amp


def good(y, s, b):
    z = y - b @ s
    if s @ s == 0:
        return UNSURE, 0.0, 1.0
    upd = np.outer(z, s) / (s @ s)
    ez = 20 * len(s) * EPS * (nrm(y) + nrm(b) * nrm(s))
    return [upd], nrm(upd) + ez / EPS / nrm(s), 1.0


def bad(y, s, b):
    bs = b @ s
    z = y - bs
    d = y @ bs
    q = y @ s
    n = len(s)
    eq = 40 * n * EPS * nrm(y) * nrm(s)
    ed = 40 * n * EPS * nrm(y) * nrm(b) * nrm(s)
    zero = np.zeros_like(b)
    if q < -eq or d < -ed or q == 0 or d == 0:
        return [zero], 0.0, 1.0
    if q <= eq or d <= ed:
        return UNSURE, 0.0, 1.0
    upd = np.outer(z, y @ b) / d
    ez = (nrm(y) + nrm(bs)) * nrm(y) * nrm(b) / abs(d)
    return [upd], nrm(upd) + ez, 1 + ed / abs(d) / EPS / 40


def iterative_update(spec, y, s, b):
    cls = spec['cls']
    a = spec.get('args', {})
    enf = a.get('enforce_curv_cond', True)
    with np.errstate(all='ignore'):
        if cls == 'BFGS':
            return broyden(y, s, b, 0.0, enf)
        if cls == 'DFP':
            return broyden(y, s, b, 1.0, enf)
        if cls == 'Broyden':
            return broyden(y, s, b, a['phi'], enf)
        if cls == 'SR1':
            return sr1(y, s, b)
        if cls == 'BG':
            return good(y, s, b)
        if cls == 'BB':
            return bad(y, s, b)
    raise KeyError(cls)


def matches(after, before, cand, scale, amp, rtol=1e-9):
    if not np.isfinite(amp) or amp > 1e7:
        return None
    tol = (rtol + 200 * EPS * amp) * (scale + nrm(before))
    for u in cand:
        if after.shape == (before + u).shape and nrm(
            after - (before + u)
        ) <= tol:
            return True
    return False


class Walk:
    """accepted steps of a run with the updates that were seen"""

    def __init__(self, c, ri, r):
        self.c, self.ri, self.r = c, ri, r
        self.out = []
        self.n = collections.Counter()
        self.opts = options_plain(r.options)

    def bad(self, kind, k, detail):
        self.out.append(viol(self.prop, kind, self.c, self.ri, k, detail))
        return True

    def steps(self):
        """(e, pre, post, accepted, recs0, recs1, cur)"""
        by = collections.defaultdict(list)
        for u in self.r.updates:
            by[(u['eval'], u['level'])].append(u)
        cur = None
        for e, pre, post, last in transitions(self.r):
            if e.k == 0:
                cur = e
                if by[(0, 0)] or by[(0, 1)]:
                    self.bad(
                        'update-at-start', 0, 'an update without a step'
                    )
                    return
                continue
            ended_exc = last and self.r.exc is not None
            if ended_exc:
                if by[(e.k, 0)] and (
                    not e.ok
                    or self.r.raised is not None
                    or not np.isfinite(e.f)
                ):
                    self.bad('updated-by-failure', e.k, repr(self.r.exc))
                return
            acc = e.ok and np.isfinite(e.f) and post['tr_ratio'] > 0
            yield e, pre, post, acc, by[(e.k, 0)], by[(e.k, 1)], cur
            if acc:
                cur = e

    def check_sy(self, rec, e, pre, skey='s', ykey='y', y=None):
        """(s, y) the code used; records a violation if they are wrong"""
        s = rec['args'].get(skey)
        sm = e.x - pre['x']
        if s is None:
            s = sm
        elif np.shape(s) != sm.shape or np.any(
            np.abs(s - sm)
            > 16 * EPS * (np.abs(pre['x']) + np.abs(e.x))
            + 1e-10 * np.abs(sm)
        ):
            self.bad(
                'wrong-step',
                e.k,
                f's={np.asarray(s).tolist()} moved {sm.tolist()}',
            )
            return None
        if y is None:
            ym = e.g - pre['grad']
            sc = np.abs(e.g) + np.abs(pre['grad'])
        else:
            ym, sc = y
        yy = rec['args'].get(ykey)
        if yy is None:
            yy = ym
        elif np.shape(yy) != ym.shape or np.any(
            np.abs(yy - ym) > 1e-10 * np.max(sc) + 1e-300
        ):
            self.bad(
                'wrong-gradient-change',
                e.k,
                f'{ykey}={np.asarray(yy).tolist()} should be {ym.tolist()}',
            )
            return None
        return np.asarray(s, dtype=float), np.asarray(yy, dtype=float)

    def initial(self):
        """matrix the run starts with"""
        r = self.r
        if len(r.evals) < 2:
            return
        h0 = r.spec.get('hess0')
        n = len(r.evals[0].x)
        if h0 is None:
            exp = np.eye(n)
        elif isinstance(h0, str):
            exp = r.evals[0].H
        else:
            exp = np.array(h0)
        got = r.evals[1].snap['hess']
        if exp is not None and not close(got, exp, 1e-12):
            self.bad(
                'initial-matrix',
                1,
                f'{np.asarray(got).tolist()} should be {exp.tolist()}',
            )

    def common(self, e, pre, post, acc, recs):
        """one update per accepted step, none otherwise; right matrix used"""
        if not acc:
            self.n['rejected_steps'] += 1
            if recs:
                return self.bad(
                    'updated-on-rejection', e.k, f'{len(recs)} updates'
                )
            if not same(post['hess'], pre['hess']):
                return self.bad(
                    'changed-on-rejection', e.k, 'matrix changed'
                )
            return True
        if len(recs) != 1:
            return self.bad(
                'update-count', e.k, f'{len(recs)} updates for one step'
            )
        rec = recs[0]
        if not same(rec['before'], pre['hess']):
            return self.bad(
                'stale-matrix', e.k, 'step model and approximation differ'
            )
        if not same(rec['after'], post['hess']):
            return self.bad(
                'stale-matrix', e.k, 'new matrix is not used'
            )
        return False


def iterative(c, ri, r):
    w = Walk(c, ri, r)
    w.prop = 'C16'
    spec = c.spec['hess']
    w.initial()
    prev = None
    for e, pre, post, acc, recs, _r1, _cur in w.steps():
        if w.out or w.common(e, pre, post, acc, recs):
            if w.out:
                break
            continue
        rec = recs[0]
        if prev is not None and not same(rec['before'], prev):
            w.bad('changed-between-updates', e.k, '')
            break
        prev = rec['after']
        sy = w.check_sy(rec, e, pre)
        if sy is None:
            break
        judge(w, e, spec, sy[1], sy[0], rec['before'], rec['after'])
        if w.out:
            break
    if not w.out and prev is not None and r is c.runs[-1]:
        if not same(c.hu.get_mat(), prev):
            w.bad('changed-after-last-update', -1, '')
    return w.out, w.n


def judge(w, e, spec, y, s, before, after):
    cand, scale, amp = iterative_update(spec, y, s, before)
    if cand is UNSURE or not np.isfinite(before).all():
        w.n['updates_unsure'] += 1
        return
    ok = matches(after, before, cand, scale, amp)
    if ok is None:
        w.n['updates_unsure'] += 1
        return
    w.n['updates_judged'] += 1
    if not np.any(cand[0]):
        w.n['updates_skipped'] += 1
    if not ok:
        w.bad(
            'wrong-update',
            e.k,
            f'{spec["cls"]} s={s.tolist()} y={y.tolist()} '
            f'before={before.tolist()} after={after.tolist()} expected '
            f'{(before + cand[0]).tolist()}',
        )


def composite(c, ri, r):
    w = Walk(c, ri, r)
    w.prop = 'C17'
    w.initial()
    cls = c.spec['hess']['cls']
    {
        'HybridFixed': _hybrid,
        'HybridFraction': _hybrid,
        'FX': _fx,
        'SSM': _structured,
        'TSSM': _structured,
        'GNSBFGS': _structured,
    }[cls](w, c.spec['hess'])
    return w.out, w.n


def _hybrid(w, spec):
    a = spec['args']
    inner = a.get('happ') or {'cls': 'BFGS', 'args': {}}
    spied = bool(a.get('happ'))
    mu, eta = opt_of(w.opts, 'mu'), opt_of(w.opts, 'eta')
    switched = False
    sure = True
    since = 0
    inter = 0
    inner_prev = None
    if spied and not isinstance(w.r.spec.get('hess0'), str):
        h0 = w.r.spec.get('hess0')
        inner_prev = (
            np.eye(len(w.r.x0)) if h0 is None else np.array(h0, dtype=float)
        )
    for e, pre, post, acc, recs, recs1, _cur in w.steps():
        since = since + 1 if post['delta'] == pre['delta_iter'] else 0
        fin = np.isfinite(e.f)
        if fin and mu < post['tr_ratio'] < eta:
            inter += 1
        if w.out or w.common(e, pre, post, acc, recs):
            if w.out:
                return
            if recs1:
                w.bad('updated-on-rejection', e.k, 'inner approximation')
                return
            continue
        rec = recs[0]
        inner_after = None
        if spied:
            if len(recs1) != 1:
                w.bad(
                    'inner-update-count',
                    e.k,
                    f'{len(recs1)} inner updates for one step',
                )
                return
            r1 = recs1[0]
            if inner_prev is not None and not close(
                r1['before'], inner_prev, 1e-12
            ):
                w.bad('inner-changed', e.k, '')
                return
            sy = w.check_sy(r1, e, pre)
            if sy is None:
                return
            judge(w, e, inner, sy[1], sy[0], r1['before'], r1['after'])
            if w.out:
                return
            inner_after = inner_prev = r1['after']
        if sure:
            w.n['updates_judged'] += 1
            w.n['switched' if switched else 'not_switched'] += 1
            exp = inner_after if switched else e.H
            if exp is not None and not close(rec['after'], exp, 1e-12):
                other = e.H if switched else inner_after
                w.bad(
                    'not-switched'
                    if switched
                    else 'switched-early'
                    if other is not None and close(rec['after'], other)
                    else 'wrong-matrix',
                    e.k,
                    f'switched={switched} since={since} inter={inter} '
                    f'iteration={e.k} {spec}',
                )
                return
        if not switched:
            if spec['cls'] == 'HybridFixed':
                switched = since >= a.get('switch_iteration', 20)
            else:
                thr = a.get('switch_threshold', 0.8)
                if e.k > 25:
                    switched = inter / e.k > thr
                    if inter / e.k == thr:
                        sure = False


def _lsq(e, cur):
    """(yb, H, r) of the step cur -> e"""
    with np.errstate(all='ignore'):
        yb = (e.sres - cur.sres).T @ e.res
        sc = (np.abs(e.sres) + np.abs(cur.sres)).T @ np.abs(e.res)
    return yb, sc


def _fx(w, spec):
    a = spec['args']
    inner = a.get('happ') or {'cls': 'BFGS', 'args': {}}
    tol = a.get('hybrid_tol', 0.2)
    for e, pre, post, acc, recs, _r1, cur in w.steps():
        if w.out or w.common(e, pre, post, acc, recs):
            if w.out:
                return
            continue
        rec = recs[0]
        yb, sc = _lsq(e, cur)
        s0 = e.x - pre['x']
        gam = e.H @ s0 + yb
        scg = np.abs(e.H) @ np.abs(s0) + sc + np.abs(e.H) @ (
            EPS * 32e10 * (np.abs(pre['x']) + np.abs(e.x))
        )
        sy = w.check_sy(rec, e, pre, 'delta', 'gamma', (gam, scg))
        if sy is None:
            return
        rp, rn = cur.res @ cur.res, e.res @ e.res
        ratio = (rp - rn) / rp if rp > 0 else np.nan
        if not np.isfinite(ratio) or abs(ratio - tol) < 1e-9:
            w.n['updates_unsure'] += 1
            continue
        if ratio >= tol:
            w.n['updates_judged'] += 1
            w.n['gauss_newton'] += 1
            if not close(rec['after'], e.H, 1e-10):
                w.bad(
                    'wrong-matrix',
                    e.k,
                    f'ratio {ratio!r} >= {tol!r}: Gauss-Newton expected',
                )
                return
        else:
            w.n['secant'] += 1
            judge(w, e, inner, sy[1], sy[0], rec['before'], rec['after'])
            if w.out:
                return


def _structured(w, spec):
    a = spec['args']
    cls = spec['cls']
    phi = a.get('phi', 0.0)
    enf = a.get('enforce_curv_cond', True)
    n = len(w.r.x0)
    amat = np.eye(n) * EPS
    for e, pre, post, acc, recs, _r1, cur in w.steps():
        if w.out or w.common(e, pre, post, acc, recs):
            if w.out:
                return
            continue
        rec = recs[0]
        if rec['A0'] is not None:
            if not close(rec['A0'], amat, 1e-6):
                w.bad('structured-part-changed', e.k, '')
                return
            amat = rec['A0']
        yb, sc = _lsq(e, cur)
        rn, rp = nrm(e.res), nrm(cur.res)
        if cls in ('TSSM', 'GNSBFGS'):
            if rp == 0:
                w.n['updates_unsure'] += 1
                return
            yb, sc = yb * rn / rp, sc * rn / rp
        sy = w.check_sy(rec, e, pre)
        if sy is None:
            return
        s = sy[0]
        got = rec['args'].get('yb')
        if got is not None:
            if np.shape(got) != yb.shape or np.any(
                np.abs(got - yb) > 1e-10 * np.max(sc) + 1e-300
            ):
                w.bad(
                    'wrong-structured-change',
                    e.k,
                    f'yb={np.asarray(got).tolist()} should be {yb.tolist()}',
                )
                return
            yb = got
        hh = e.H
        with np.errstate(all='ignore'):
            if cls == 'SSM':
                res = broyden(yb + hh @ s, s, hh + amat, phi, enf)
                mul, div = 1.0, 1.0
            elif cls == 'TSSM':
                if rn == 0:
                    res = [np.zeros((n, n))], 0.0, 1.0
                    mul, div = 0.0, 1.0
                else:
                    res = broyden(hh @ s + yb, s, hh + rn * amat, phi, enf)
                    mul, div = rn, rn
            else:
                ratio = yb @ s / (s @ s)
                er = 40 * n * EPS * nrm(yb) / nrm(s)
                tol = a.get('hybrid_tol', 1e-6)
                if not np.isfinite(ratio) or abs(ratio - tol) <= er + (
                    1e-9 * abs(tol)
                ):
                    res = UNSURE, 0.0, 1.0
                elif ratio > tol:
                    w.n['structured_branch'] += 1
                    res = broyden(yb, s, amat, 0.0, enf)
                    mul, div = 1.0, 1.0
                else:
                    w.n['gauss_newton_branch'] += 1
                    exp = hh + rn * np.eye(n)
                    w.n['updates_judged'] += 1
                    if not close(rec['after'], exp, 1e-9):
                        w.bad(
                            'wrong-matrix',
                            e.k,
                            f'{cls}: {rec["after"].tolist()} should be '
                            f'{exp.tolist()}',
                        )
                        return
                    continue
            cand, scale, amp = res
            if cand is UNSURE:
                w.n['updates_unsure'] += 1
                if rec['A1'] is None:
                    return
                amat = rec['A1']
                continue
            new_a = amat + cand[0] / div
            exp = hh + mul * new_a
            base = hh + mul * amat
            ok = matches(rec['after'], base, [cand[0] / div * mul], scale, amp)
        if ok is None:
            w.n['updates_unsure'] += 1
            if rec['A1'] is None:
                return
            amat = rec['A1']
            continue
        w.n['updates_judged'] += 1
        if not ok:
            w.bad(
                'wrong-matrix',
                e.k,
                f'{cls} s={s.tolist()} yb={np.asarray(yb).tolist()} '
                f'H={hh.tolist()} A={amat.tolist()} after='
                f'{rec["after"].tolist()} expected {exp.tolist()}',
            )
            return
        amat = rec['A1'] if rec['A1'] is not None else new_a
        if rec['A1'] is not None:
            t = (1e-9 + 200 * EPS * amp) * (
                scale / div + nrm(new_a)
            )
            if nrm(rec['A1'] - new_a) > t:
                w.bad(
                    'wrong-structured-part',
                    e.k,
                    f'{rec["A1"].tolist()} should be {new_a.tolist()}',
                )
                return
