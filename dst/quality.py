"""How good every step has to be (property C19)."""

import collections

import numpy as np

from .model import EPS, StepModel, opt_of, options_plain, scaling
from .oracles import transitions, viol


def qval(b, g, s):
    return float(0.5 * s @ b @ s + g @ s)


def exact(b, g, delta):
    """(minimum of the model in the ball, minimiser, hard)

    eigenvalues and bisection on the secular equation; independent of the
    code under test."""
    n = len(g)
    w, v = np.linalg.eigh(0.5 * (b + b.T))
    a = v.T @ g
    gn = np.linalg.norm(g)
    wmin = w[0]
    scale = max(np.abs(w).max(), 1e-300)

    def s_of(lam):
        d = w + lam
        with np.errstate(all='ignore'):
            r = -a / d
        r[(d == 0) & (a == 0)] = 0
        return r

    if wmin > 0:
        s = s_of(0.0)
        if np.linalg.norm(s) <= delta:
            return qval(b, g, v @ s), v @ s, wmin < 1e-6 * scale
    lo = max(0.0, -wmin)
    # hard case: even at lam = -wmin the step is inside
    eps = 1e-12 * scale
    s = s_of(lo + eps)
    if np.linalg.norm(s) < delta:
        # go to the boundary along the lowest eigenvector
        ns = s.copy()
        t = np.sqrt(max(0.0, delta**2 - (ns @ ns - ns[0] ** 2)))
        best = None
        for sg in (-1, 1):
            x = ns.copy()
            x[0] = sg * t
            q = qval(np.diag(w), a, x)
            if best is None or q < best[0]:
                best = (q, x)
        return best[0], v @ best[1], True
    hi = lo + gn / delta + scale + 1e-300
    while np.linalg.norm(s_of(hi)) > delta:
        hi = 2 * hi + 1e-300
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if mid in (lo, hi):
            break
        if np.linalg.norm(s_of(mid)) > delta:
            lo = mid
        else:
            hi = mid
    s = s_of(hi)
    # close to the hard case the minimiser is not well determined
    hard = hi + wmin < 1e-6 * scale or (
        n > 1
        and abs(a[0]) < 1e-6 * max(gn, 1e-300)
        and wmin < 1e-9 * scale
    )
    return qval(b, g, v @ s), v @ s, hard


def line(b, g, p, delta):
    """(best value, length) along p/|p| within +-delta"""
    n = np.linalg.norm(p)
    if n == 0:
        return 0.0, np.zeros_like(p)
    u = p / n
    c = u @ b @ u
    l = u @ g
    cand = [delta, -delta]
    if c > 0:
        t = -l / c
        if abs(t) <= delta:
            cand.append(t)
    best = min(cand, key=lambda t: 0.5 * c * t * t + l * t)
    return 0.5 * c * best**2 + l * best, best * u


def breakpoint_(x, s, lb, ub):
    br = np.full(len(s), np.inf)
    nz = s != 0
    with np.errstate(all='ignore'):
        br[nz] = np.maximum((ub - x)[nz] / s[nz], (lb - x)[nz] / s[nz])
    return br.min()


def quality(c, ri, r):
    out = []
    cnt = collections.Counter()
    opts = options_plain(r.options)
    sub = opt_of(opts, 'subspace_solver')
    strat = opt_of(opts, 'stepback_strategy')
    lb, ub = c.lb, c.ub
    tmax = opt_of(opts, 'theta_max')
    for e, pre, post, last in transitions(r):
        if e.k == 0:
            continue
        sm = StepModel(pre, e.x, lb, ub, e.g)
        if not sm.ok or sm.degenerate:
            cnt['steps_unclear'] += 1
            continue
        with np.errstate(all='ignore'):
            k = _one(sm, pre, sub, strat, lb, ub, tmax, cnt)
        if k:
            out.append(viol('C19', k[0], c, ri, e.k, k[1]))
            break
    return out, cnt


RT = 1e-5


def _one(sm, pre, sub, strat, lb, ub, tmax, cnt):
    b, g, d = 0.5 * (sm.b + sm.b.T), sm.sg, sm.d
    delta = float(pre['delta_iter'])
    x = pre['x']
    n = len(x)
    gn = np.linalg.norm(g)
    bn = np.linalg.norm(b, 2)
    if not (np.isfinite(bn) and np.isfinite(gn)) or gn == 0:
        return None
    asym = np.linalg.norm(sm.b - sm.b.T) > 1e-8 * max(bn, 1e-300)
    if bn > 1e100 or bn * delta**2 > 1e100 or gn > 1e100:
        return None
    theta = max(tmax, 1 - np.max(np.abs(sm.v * pre['grad'])))
    tlo = theta * (1 - 1e-9)
    # values at which rounding of x + s shows
    noise = 4 * sm.qp_err + 1e-14 * (gn * delta + bn * delta**2)

    def fits(ss, t=None):
        """the step stays clear of every bound: nothing is cut"""
        return (t or tlo) * breakpoint_(x, d * ss, lb, ub) > 1 + 1e-9

    def worse(q):
        """the step taken is clearly worse than a step of model value q"""
        return sm.qp > q + RT * abs(q) + noise

    def say(what, q):
        return what, (
            f'model value {sm.qp!r} instead of {q!r} '
            f'(radius {delta!r}, {sub}, {strat})'
        )

    ball_fits = bool(
        np.all(d * delta * (1 + 1e-9) < tlo * np.minimum(ub - x, x - lb))
    )
    q, s, hard = exact(b, g, delta)
    ew, ev = np.linalg.eigh(b)
    scale = np.abs(ew).max()
    qc, sc = line(b, g, g, delta)
    # -- the global minimum ----------------------------------------------------
    if sub == 'full' or n == 1:
        free = ball_fits or (not hard and fits(s))
        if asym:
            free = False
        if n == 1 and sub != 'full':
            # one dimension: every subspace is the whole space, but conjugate
            # gradients stop at stationary points
            free = free and sub == '2D' and ew[0] > 1e-9
        if free:
            cnt['judged_exact'] += 1
            if hard:
                cnt['judged_hard_case'] += 1
            if worse(q):
                return say('not-global', q)
    # -- the best gradient step ------------------------------------------------
    if sub == 'scg' and not asym and (ball_fits or False):
        cnt['judged_cauchy_scg'] += 1
        if worse(qc):
            return say('below-cauchy', qc)
    if sub == '2D' and n > 1 and not asym:
        if ew[0] > 1e-6 * scale:
            free = ball_fits
            if not free:
                s2 = _two_d(b, g, delta)
                free = s2 is not None and fits(s2)
            if free:
                cnt['judged_cauchy_2d'] += 1
                if worse(qc):
                    return say('below-cauchy', qc)
        elif ew[0] < -1e-6 * scale and (n < 2 or ew[1] - ew[0] > 1e-3 * scale):
            if ball_fits:
                qe, _ = line(b, g, ev[:, 0], delta)
                cnt['judged_curvature_2d'] += 1
                if worse(qe):
                    return say('below-curvature-step', qe)
    # -- steps that hit a bound --------------------------------------------------
    if n > 1 and not asym:
        tr = None
        if sub == 'full' and not hard:
            tr = s
        elif sub == '2D' and ew[0] > 1e-6 * scale:
            tr = _two_d(b, g, delta)
        if tr is not None:
            a = theta * breakpoint_(x, d * tr, lb, ub)
            if a < 1 - 1e-6:
                cnt['judged_cut_step'] += 1
                qt = qval(b, g, a * tr)
                # a small error of the direction moves the breakpoint as well
                if sm.qp > qt + 1e-3 * abs(qt) + noise:
                    return say('below-cut-step', qt)
                ag = min(1.0, theta * breakpoint_(x, d * sc, lb, ub))
                qg = qval(b, g, ag * sc)
                cnt['judged_cut_gradient'] += 1
                if worse(qg):
                    return say('below-cut-gradient-step', qg)
    return None


def _two_d(b, g, delta):
    """minimiser over span(gradient, Newton step), positive definite model"""
    try:
        nw = -np.linalg.solve(b, g)
    except np.linalg.LinAlgError:
        return None
    if np.linalg.norm(nw) <= delta:
        return nw
    q, r = np.linalg.qr(np.vstack([nw, g]).T)
    if abs(r[1, 1]) < 1e-7 * np.linalg.norm(g):
        return None
    _, s, hard = exact(q.T @ b @ q, q.T @ g, delta)
    return None if hard else q @ s
