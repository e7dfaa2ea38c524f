"""Oracles: functions from a recorded run to a list of violations."""

import numpy as np

from .model import (
    EPS,
    NUDGE,
    StepModel,
    expected_radius,
    opt_of,
    options_plain,
)
from .world import BackendError, SimHang


class V(dict):
    pass


def viol(prop, kind, c, ri, k, detail):
    return V(
        prop=prop,
        kind=kind,
        client=c.cid,
        run=ri,
        eval=k,
        detail=detail,
    )


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.array_equal(a, b, equal_nan=True))


def close(a, b, rtol=1e-11):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if same(a, b):
        return True
    with np.errstate(all='ignore'):
        ma = np.max(np.abs(np.where(np.isfinite(b), b, 0)), initial=0.0)
        return bool(
            np.allclose(a, b, rtol=rtol, atol=rtol * ma, equal_nan=True)
        )


def nudged(xa, xe, lb, ub):
    """is xa the evaluated point xe, up to the degeneracy nudge?"""
    if xa is None or np.shape(xa) != np.shape(xe):
        return False
    d = np.abs(xa - xe)
    sc = NUDGE * np.maximum(1.0, np.abs(xe))
    at = (np.abs(ub - xe) < 4 * sc) | (np.abs(xe - lb) < 4 * sc)
    lim = np.where(at, 3 * sc, 0.0)
    return bool(np.all(d <= lim))


def transitions(r):
    """[(eval, pre-state, post-state, is_last)]"""
    out = []
    ev = r.evals
    for i, e in enumerate(ev):
        last = i == len(ev) - 1
        post = r.final if last else ev[i + 1].snap
        out.append((e, e.snap, post, last))
    return out


def mats_eq(c, a, b):
    if c.spec.get('resfun'):
        return close(a, b, 1e-11)
    return same(a, b)


def good_start(x0, x, lb, ub):
    """is the first evaluation at the given start?"""
    if x.shape != x0.shape:
        return False
    at = (np.abs(ub - x0) < 1e-12 * (1 + np.abs(x0))) | (
        np.abs(x0 - lb) < 1e-12 * (1 + np.abs(x0))
    )
    lim = np.where(at, 1e-11 * (1 + np.abs(x0)), 0.0)
    return bool(np.all(np.abs(x - x0) <= lim))


# -- C01 -------------------------------------------------------------------


def feasible(c, ri, r):
    out = []
    lb, ub = c.lb, c.ub
    for e in r.evals:
        if not np.isfinite(e.x).all():
            out.append(
                viol('C01', 'nonfinite-point', c, ri, e.k, repr(e.x.tolist()))
            )
            break
        if np.any(e.x < lb) or np.any(e.x > ub):
            ex = np.maximum(lb - e.x, e.x - ub).max()
            out.append(
                viol(
                    'C01',
                    'evaluated-outside',
                    c,
                    ri,
                    e.k,
                    f'x={e.x.tolist()} exceeds by {ex!r}',
                )
            )
            break
    x0 = np.array(r.x0, dtype=float)
    if x0.shape == lb.shape:
        bad = not np.all((x0 >= lb) & (x0 <= ub))
        if bad:
            ex = np.maximum(lb - x0, x0 - ub).max()
            if not ex <= 1e-10 * max(1.0, np.abs(x0).max()) and (
                r.evals or not isinstance(r.exc, RuntimeError)
            ):
                out.append(
                    viol(
                        'C01',
                        'infeasible-start-accepted',
                        c,
                        ri,
                        0,
                        f'x0={x0.tolist()} exc={r.exc!r}',
                    )
                )
            return out
    if r.evals and not good_start(x0, r.evals[0].x, lb, ub):
        out.append(
            viol(
                'C01',
                'wrong-start',
                c,
                ri,
                0,
                f'x0={x0.tolist()} evaluated at {r.evals[0].x.tolist()}',
            )
        )
    if r.exc is None:
        x = r.final['x']
        if not (
            np.isfinite(x).all() and np.all(x >= lb) and np.all(x <= ub)
        ):
            out.append(
                viol(
                    'C01', 'result-outside', c, ri, len(r.evals), repr(x)
                )
            )
        if (
            int(r.final['exitflag']) == -4
        ):
            out.append(viol('C01', 'flag', c, ri, len(r.evals), 'flag -4'))
    elif int(r.final['exitflag'] or 0) == -4 and isinstance(
        r.exc, RuntimeError
    ):
        out.append(
            viol(
                'C01',
                'left-feasible-box',
                c,
                ri,
                len(r.evals),
                str(r.exc)[:200],
            )
        )
    return out


# -- C02 -------------------------------------------------------------------


def iterate(c, ri, r):
    """the iterate is always one evaluated triple and only goes downhill"""
    out = []
    lb, ub = c.lb, c.ub
    opts = options_plain(r.options)
    alias = c.spec.get('alias')
    for e, pre, post, last in transitions(r):
        ended_exc = last and r.exc is not None
        if e.k == 0:
            if ended_exc:
                continue
            okx = nudged(post['x'], e.x, lb, ub)
            if not (
                okx
                and e.f is not None
                and mats_eq(c, post['fval'], e.f)
                and mats_eq(c, post['grad'], e.g)
            ) and len(r.evals) > 1:
                out.append(
                    viol('C02', 'torn-initial', c, ri, 0, _st(post, e))
                )
                break
            continue
        unchanged = (
            same(post['x'], pre['x'])
            and same(post['fval'], pre['fval'])
            and same(post['grad'], pre['grad'])
            and same(post['hess'], pre['hess'])
        )
        bad_reply = (
            not e.ok
            or not np.isfinite(e.f)
            or not np.isfinite(e.g).all()
            or (e.H is not None and not np.isfinite(e.H).all())
        )
        if ended_exc and (bad_reply or r.raised is not None):
            # an aborted evaluation must leave the iterate alone
            if not unchanged:
                out.append(
                    viol('C02', 'abort-changed', c, ri, e.k, _st(post, e))
                )
            continue
        if not e.ok:
            if not unchanged:
                out.append(
                    viol('C02', 'bad-reply-used', c, ri, e.k, _st(post, e))
                )
                break
            continue
        moved = (
            nudged(post['x'], e.x, lb, ub)
            and mats_eq(c, post['fval'], e.f)
            and mats_eq(c, post['grad'], e.g)
        )
        if c.spec.get('hess') is None and moved:
            moved = mats_eq(c, post['hess'], e.H)
        if unchanged:
            if (
                moved
                or not np.isfinite(e.f)
                or not (e.f < pre['fval'])
                or ended_exc
            ):
                continue
            sm = StepModel(pre, e.x, lb, ub, e.g)
            rt = sm.ratio(pre['fval'], e.f)
            if rt is not None and rt[0] - 4 * rt[1] > 1e-6:
                out.append(
                    viol(
                        'C02',
                        'good-step-refused',
                        c,
                        ri,
                        e.k,
                        f'ratio {rt[0]:.3g} f {pre["fval"]!r}->{e.f!r}',
                    )
                )
                break
            continue
        if not moved:
            out.append(viol('C02', 'torn-iterate', c, ri, e.k, _st(post, e)))
            break
        if not np.isfinite(e.f) or not (
            e.f < pre['fval'] + (1e-12 * abs(e.f) if c.spec.get('resfun') else 0)
        ):
            out.append(
                viol(
                    'C02',
                    'uphill',
                    c,
                    ri,
                    e.k,
                    f'f {pre["fval"]!r} -> {e.f!r}',
                )
            )
            break
        if not (np.isfinite(e.g).all()):
            out.append(
                viol('C02', 'nonfinite-iterate', c, ri, e.k, _st(post, e))
            )
            break
        sm = StepModel(pre, e.x, lb, ub, e.g)
        rt = sm.ratio(pre['fval'], e.f)
        if rt is not None and rt[0] + 4 * rt[1] < -1e-6:
            out.append(
                viol(
                    'C02',
                    'bad-step-taken',
                    c,
                    ri,
                    e.k,
                    f'ratio {rt[0]:.3g} f {pre["fval"]!r}->{e.f!r}',
                )
            )
            break
    if r.exc is None and not out:
        fin = r.final
        res = r.result
        names = ('fval', 'x', 'grad', 'hess')
        if not isinstance(res, tuple) or len(res) != 4:
            out.append(viol('C02', 'result-shape', c, ri, -1, repr(res)))
        else:
            for a, n in zip(res, names):
                if not same(a, fin[n]):
                    out.append(
                        viol('C02', 'result-mismatch', c, ri, -1, n)
                    )
                    break
            if not (
                np.isfinite(fin['fval'])
                and np.isfinite(fin['x']).all()
                and np.isfinite(fin['grad']).all()
            ):
                out.append(
                    viol('C02', 'nonfinite-result', c, ri, -1, repr(res))
                )
            elif not out and not any(
                nudged(fin['x'], e.x, lb, ub)
                and mats_eq(c, fin['fval'], e.f)
                and mats_eq(c, fin['grad'], e.g)
                for e in r.evals
                if e.ok
            ):
                out.append(
                    viol(
                        'C02', 'result-not-an-evaluation', c, ri, -1, repr(res)
                    )
                )
    return out


def _st(post, e):
    return (
        f'x={np.asarray(post["x"]).tolist()} f={post["fval"]!r} '
        f'g={np.asarray(post["grad"]).tolist()} vs eval x={e.x.tolist()} '
        f'f={e.f!r} g={None if e.g is None else e.g.tolist()}'
    )


# -- C03 -------------------------------------------------------------------


def best(c, ri, r):
    """x_min/fval_min/grad_min are the best finite evaluation of this run"""
    out = []
    lb, ub = c.lb, c.ub
    b = None
    for e, pre, post, last in transitions(r):
        ended_exc = last and r.exc is not None
        cand = []
        if e.ok and e.f is not None and np.isfinite(e.f):
            if b is None or e.f < b.f:
                cand.append(e)
        if ended_exc:
            # the evaluation that aborted the run may or may not count
            if b is not None:
                cand.append(b)
            if e.k == 0 and not cand:
                continue
        elif not cand and b is not None:
            cand.append(b)
        if not cand:
            continue
        if not any(
            nudged(post['x_min'], q.x, lb, ub)
            and mats_eq(c, post['fval_min'], q.f)
            and mats_eq(c, post['grad_min'], q.g)
            for q in cand
        ):
            q = cand[0]
            out.append(
                viol(
                    'C03',
                    'best-wrong',
                    c,
                    ri,
                    e.k,
                    f'have f={post["fval_min"]!r} x='
                    f'{np.asarray(post["x_min"]).tolist()} expected '
                    f'f={q.f!r} x={q.x.tolist()} (eval {q.k})',
                )
            )
            break
        if not ended_exc:
            b = cand[0]
            if post['fval_min'] > post['fval']:
                out.append(
                    viol(
                        'C03',
                        'worse-than-iterate',
                        c,
                        ri,
                        e.k,
                        f'{post["fval_min"]!r} > {post["fval"]!r}',
                    )
                )
                break
    return out


# -- C04 -------------------------------------------------------------------


def radius(c, ri, r):
    out = []
    lb, ub = c.lb, c.ub
    opts = options_plain(r.options)
    for e, pre, post, last in transitions(r):
        if e.k == 0:
            if r.exc is None or not last:
                d0 = opt_of(opts, 'delta_init')
                if post['delta'] != d0 and len(r.evals) > 1:
                    out.append(
                        viol(
                            'C04',
                            'initial-radius',
                            c,
                            ri,
                            0,
                            f'{post["delta"]!r} != {d0!r}',
                        )
                    )
                    break
            continue
        if last and r.exc is not None:
            continue
        sm = StepModel(pre, e.x, lb, ub, e.g)
        if not sm.ok or not e.ok:
            continue
        d = pre['delta_iter']
        if pre['delta'] != d:
            out.append(
                viol('C04', 'radius-not-in-force', c, ri, e.k, repr(pre['delta']))
            )
            break
        if not sm.degenerate and sm.nss - 4 * sm.nss_err > d * (
            1 + step_slack(opts)
        ):
            out.append(
                viol(
                    'C04',
                    'step-exceeds-radius',
                    c,
                    ri,
                    e.k,
                    f'|s|={sm.nss!r} radius={d!r}',
                )
            )
            break
        fin = bool(np.isfinite(e.f))
        if fin:
            rt = sm.ratio(pre['fval'], e.f)
            if rt is not None and abs(rt[0]) < 1e12:
                rv, err = rt
                if abs(post['tr_ratio'] - rv) > 8 * err + 1e-5 * (
                    1e-3 + abs(rv)
                ):
                    out.append(
                        viol(
                            'C04',
                            'ratio',
                            c,
                            ri,
                            e.k,
                            f'ratio {post["tr_ratio"]!r} model {rv!r} '
                            f'+-{err!r}',
                        )
                    )
                    break
        exp, why = expected_radius(pre, post['tr_ratio'], fin, sm, opts)
        got = post['delta']
        if not any(lo <= got <= hi for lo, hi in exp):
            out.append(
                viol(
                    'C04',
                    'radius-' + why,
                    c,
                    ri,
                    e.k,
                    f'radius {d!r} -> {got!r}, expected '
                    f'{exp} (ratio {post["tr_ratio"]!r}, '
                    f'|s|={sm.nss!r})',
                )
            )
            break
    return out


def step_slack(opts):
    return (
        1e-3 if opt_of(opts, 'stepback_strategy') == 'refine' else 1e-5
    )


# -- C05 / C06 ---------------------------------------------------------------


def criteria(c, r, k, pre, post, e, opts):
    """which stopping criteria hold after evaluation k: name -> True/False/
    None (too close to the threshold to call)"""
    fatol = opt_of(opts, 'fatol')
    frtol = opt_of(opts, 'frtol')
    xtol = opt_of(opts, 'xtol')
    gatol = opt_of(opts, 'gatol')
    grtol = opt_of(opts, 'grtol')
    mu = opt_of(opts, 'mu')
    res = {}

    def lt(a, b, tol):
        if np.isnan(a) or np.isnan(b):
            return False
        if abs(a - b) <= tol * max(abs(a), abs(b)):
            return None
        return bool(a < b)

    f, f0 = e.f, pre['fval']
    t = 1e-9
    if np.isfinite(f) and post['tr_ratio'] > mu:
        a, b = abs(f - f0), fatol + frtol * abs(f0)
        if a == 0 and b == 0:
            res['FTOL'] = False
        else:
            err = 1e-12 * abs(f0) if c.spec.get('resfun') else 0.0
            if abs(a - b) <= err:
                res['FTOL'] = None
            else:
                res['FTOL'] = lt(a, b, t)
    else:
        res['FTOL'] = False
    sm = StepModel(pre, e.x, c.lb, c.ub, e.g)
    if sm.ok and not sm.degenerate and k > 1:
        q = lt(sm.nss, xtol, t)
        if q is not None and abs(sm.nss - xtol) <= 4 * sm.nss_err:
            q = None
        res['XTOL'] = q
    elif sm.ok and sm.degenerate and k > 1 and xtol > 0:
        res['XTOL'] = None
    else:
        res['XTOL'] = False
    # the gradient criterion speaks about the iterate that is returned
    g = post['grad']
    gn = np.linalg.norm(g)
    q1 = lt(gn, gatol, t)
    if gn == 0:
        q1 = True
    qs = [q1]
    for fr in (pre['fval'], post['fval']):
        bnd = grtol * abs(fr)
        qs.append(True if gn == 0 else lt(gn, bnd, t))
    res['GTOL_any'] = (
        True if True in qs else (None if None in qs else False)
    )
    must = [qs[0]]
    if qs[1] == qs[2]:
        must.append(qs[1])
    else:
        must.append(None)
    res['GTOL'] = True if True in must else (None if None in must else False)
    return res


def exits(c, ri, r):
    out = []
    opts = options_plain(r.options)
    fin = r.final
    flag = int(fin['exitflag'])
    n = len(r.evals) - 1
    if r.exc is not None:
        if isinstance(r.exc, SimHang):
            return out
        if flag > 0:
            out.append(
                viol(
                    'C05',
                    'success-flag-on-failure',
                    c,
                    ri,
                    n,
                    f'flag {flag} after {r.exc!r}',
                )
            )
        elif flag in (-1, -2, -5):
            out.append(
                viol(
                    'C05',
                    'stale-flag-on-failure',
                    c,
                    ri,
                    n,
                    f'flag {flag} after {r.exc!r}',
                )
            )
        elif fin['converged']:
            out.append(
                viol('C05', 'converged-on-failure', c, ri, n, repr(r.exc))
            )
        return out
    name = getattr(fin['exitflag'], 'name', str(flag))
    if flag in (0, -3, -4):
        out.append(
            viol('C05', 'bad-flag-on-return', c, ri, n, name)
        )
        return out
    if bool(fin['converged']) != (flag > 0):
        out.append(
            viol(
                'C05',
                'converged-vs-flag',
                c,
                ri,
                n,
                f'{fin["converged"]} {name}',
            )
        )
        return out
    tr = transitions(r)
    for e, pre, post, last in tr[1:]:
        if not e.ok:
            continue
        cr = criteria(c, r, e.k, pre, post, e, opts)
        tol = [cr['FTOL'], cr['XTOL'], cr['GTOL']]
        if not last or flag < 0:
            if True in tol:
                out.append(
                    viol(
                        'C05',
                        'missed-convergence',
                        c,
                        ri,
                        e.k,
                        f'{cr} but went on / flag {name}',
                    )
                )
                return out
        elif flag > 0:
            key = {1: 'FTOL', 2: 'XTOL', 3: 'GTOL_any'}[flag]
            if cr[key] is False:
                out.append(
                    viol(
                        'C05',
                        'false-' + name,
                        c,
                        ri,
                        e.k,
                        f'{cr} f={e.f!r} f0={pre["fval"]!r} '
                        f'|g|={np.linalg.norm(post["grad"])!r}',
                    )
                )
                return out
    if flag > 0 and n == 0:
        out.append(viol('C05', 'converged-without-step', c, ri, 0, name))
    if flag == -5 and not fin['delta'] < EPS:
        out.append(
            viol('C05', 'false-DELTA', c, ri, n, repr(fin['delta']))
        )
    if flag == -1 and n < opt_of(opts, 'maxiter'):
        out.append(viol('C05', 'false-MAXITER', c, ri, n, str(n)))
    if flag == -2 and not np.isfinite(opt_of(opts, 'maxtime')):
        out.append(viol('C05', 'false-MAXTIME', c, ri, n, str(n)))
    return out


def budget(c, ri, r):
    """iteration budget and termination"""
    out = []
    opts = options_plain(r.options)
    n = len(r.evals) - 1
    if isinstance(r.exc, SimHang):
        out.append(
            viol(
                'C06',
                'no-progress',
                c,
                ri,
                n,
                'step budget exhausted between two evaluations',
            )
        )
        return out
    mi = opt_of(opts, 'maxiter')
    if n > mi:
        out.append(viol('C06', 'over-maxiter', c, ri, n, f'{n} > {mi}'))
    if r.evals and r.final['iteration'] not in (n, n + 1):
        out.append(
            viol(
                'C06',
                'iteration-count',
                c,
                ri,
                n,
                f'{r.final["iteration"]} vs {n} evaluations',
            )
        )
    if r.exc is None and r.evals and r.final['iteration'] != n:
        out.append(
            viol(
                'C06',
                'evals-per-iteration',
                c,
                ri,
                n,
                f'{r.final["iteration"]} iterations, {n} evaluations',
            )
        )
    for i, e in enumerate(r.evals):
        if i and e.snap['iteration'] != i:
            out.append(
                viol(
                    'C06',
                    'evals-per-iteration',
                    c,
                    ri,
                    i,
                    f'iteration {e.snap["iteration"]} at evaluation {i}',
                )
            )
            break
    # radius collapse terminates
    for e, pre, post, last in transitions(r):
        if not last and post['delta'] < EPS:
            out.append(
                viol(
                    'C06',
                    'went-on-below-precision',
                    c,
                    ri,
                    e.k,
                    repr(post['delta']),
                )
            )
            break
    return out


# -- C08 -------------------------------------------------------------------


def nonfinite(c, ri, r):
    """bad numbers are contained"""
    out = []
    trs = transitions(r)
    for e, pre, post, last in trs:
        if not e.ok:
            continue
        fb = not np.isfinite(e.f)
        gb = not np.isfinite(e.g).all()
        hb = e.H is not None and not np.isfinite(e.H).all()
        ended_exc = last and r.exc is not None
        flag = int(r.final['exitflag'])
        if e.k == 0:
            if fb or gb or hb:
                if not (
                    ended_exc
                    and isinstance(r.exc, RuntimeError)
                    and flag == -3
                ):
                    out.append(
                        viol(
                            'C08',
                            'bad-start-accepted',
                            c,
                            ri,
                            0,
                            f'exc={r.exc!r} flag={flag}',
                        )
                    )
                    break
            continue
        if fb:
            # rejected, radius strictly reduced, run continues (or stops for
            # a legitimate non-error reason)
            if ended_exc:
                if not isinstance(r.exc, SimHang):
                    out.append(
                        viol(
                            'C08',
                            'failed-evaluation-aborts',
                            c,
                            ri,
                            e.k,
                            repr(r.exc),
                        )
                    )
                break
            if not (
                same(post['x'], pre['x']) and same(post['fval'], pre['fval'])
            ):
                out.append(
                    viol('C08', 'failed-evaluation-used', c, ri, e.k, '')
                )
                break
            if not post['delta'] < pre['delta_iter'] and pre['delta_iter'] > 0:
                out.append(
                    viol(
                        'C08',
                        'radius-not-reduced',
                        c,
                        ri,
                        e.k,
                        f'{pre["delta_iter"]!r}->{post["delta"]!r}',
                    )
                )
                break
        elif gb or hb:
            if not (
                ended_exc
                and isinstance(r.exc, RuntimeError)
                and flag == -3
            ):
                out.append(
                    viol(
                        'C08',
                        'bad-derivative-accepted',
                        c,
                        ri,
                        e.k,
                        f'exc={r.exc!r} flag={flag}',
                    )
                )
                break
        elif ended_exc and isinstance(r.exc, Exception):
            # the last reply was good, yet the run died
            if r.raised is None:
                out.append(
                    viol(
                        'C08',
                        'died-on-good-reply',
                        c,
                        ri,
                        e.k,
                        repr(r.exc)[:300],
                    )
                )
                break
    if r.exc is None and r.evals:
        for n in ('fval', 'x', 'grad', 'hess'):
            if not np.isfinite(np.asarray(r.final[n], dtype=float)).all():
                out.append(
                    viol('C08', 'nonfinite-result', c, ri, -1, n)
                )
                break
    if not out and good_reply(r.evals[0] if r.evals else None):
        # after a good start nothing non-finite ever gets into the state
        for e, pre, post, last in trs:
            if last and r.exc is not None and not good_reply(e):
                # the reply that ended the run was not digested
                names = ('x', 'x_min', 'fval_min')
            else:
                names = ('x', 'fval', 'grad', 'hess')
                names += ('x_min', 'fval_min', 'grad_min')
            if last and r.exc is not None and e.k == 0:
                continue
            bad = [n for n in names if not finite(post[n])]
            if bad:
                out.append(
                    viol('C08', 'nonfinite-state', c, ri, e.k, str(bad))
                )
                break
        if ri == len(c.runs) - 1 and not out:
            for h in (c.hu, getattr(c.hu, 'hessian_update', None)):
                if h is not None and not finite(h.get_mat()):
                    out.append(
                        viol(
                            'C08',
                            'nonfinite-approximation',
                            c,
                            ri,
                            -1,
                            type(h).__name__,
                        )
                    )
    return out


def finite(v):
    return v is not None and bool(
        np.isfinite(np.asarray(v, dtype=float)).all()
    )


def good_reply(e):
    return (
        e is not None
        and e.ok
        and bool(np.isfinite(e.f))
        and finite(e.g)
        and (e.H is None or finite(e.H))
    )


# -- C15: exceptions ---------------------------------------------------------


def exceptions(c, ri, r):
    out = []
    raised = getattr(r, 'raised', None)
    if raised is not None and r.exc is not raised:
        out.append(
            viol(
                'C15',
                'exception-not-delivered',
                c,
                ri,
                len(r.evals) - 1,
                f'raised {raised!r} got {r.exc!r}',
            )
        )
    for e, pre, post, last in transitions(r):
        if any(f.startswith('malformed') for f in e.faults):
            struck = r.exc is not None and r.exc is raised
            if not (last and (struck or isinstance(r.exc, ValueError))):
                out.append(
                    viol(
                        'C15',
                        'malformed-reply-accepted',
                        c,
                        ri,
                        e.k,
                        f'{e.faults} exc={r.exc!r}',
                    )
                )
            break
    return out


ALL = {
    'feasible': feasible,
    'iterate': iterate,
    'best': best,
    'radius': radius,
    'exits': exits,
    'budget': budget,
    'nonfinite': nonfinite,
    'exceptions': exceptions,
}
