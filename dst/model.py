"""Reference model of one optimizer iteration.

Given only what an observer of the public surface sees -- the point the
optimizer held, what the objective said there, the radius, the bounds and the
point it asked for next -- recompute the scaled step, the model decrease, the
trust-region ratio and the resulting radius.  It is re-synchronised with the
observed state at every evaluation, so rounding never accumulates.
"""

import numpy as np

DEFAULTS = {
    'maxiter': 1e3,
    'maxtime': np.inf,
    'fatol': 1e-8,
    'frtol': 1e-8,
    'xtol': 0,
    'gatol': 1e-6,
    'grtol': 0,
    'subspace_solver': '2D',
    'stepback_strategy': 'reflect',
    'theta_max': 0.95,
    'delta_init': 1.0,
    'mu': 0.25,
    'eta': 0.75,
    'gamma1': 0.25,
    'gamma2': 2,
    'history_file': None,
}
EPS = 2.220446049250313e-16
NUDGE = 1e2 * EPS


def opt_of(options, key):
    v = options.get(key, DEFAULTS[key])
    return getattr(v, 'value', v)


def options_plain(options):
    """options with enum keys mapped to their string names"""
    return {
        (k.value if hasattr(k, 'value') else k): v for k, v in options.items()
    }


def scaling(x, g, lb, ub):
    b = np.where(g < 0, ub, lb)
    bounded = np.isfinite(b)
    v = np.where(g > 0, 1.0, np.where(g < 0, -1.0, 1.0))
    v = v.astype(float)
    v[bounded] = x[bounded] - b[bounded]
    dv = bounded.astype(float)
    return v, dv


class StepModel:
    """model quantities of the step pre.x -> e.x"""

    def __init__(self, pre, xnew, lb, ub, gnew=None):
        x, g, h = pre['x'], pre['grad'], pre['hess']
        self.ok = (
            np.isfinite(x).all()
            and np.isfinite(g).all()
            and np.isfinite(h).all()
            and np.isfinite(xnew).all()
        )
        if not self.ok:
            return
        with np.errstate(all='ignore'):
            self._compute(x, g, h, xnew, lb, ub, gnew)

    def _compute(self, x, g, h, xnew, lb, ub, gnew):
        v, dv = scaling(x, g, lb, ub)
        d = np.sqrt(np.abs(v))
        s = xnew - x
        self.s = s
        self.v, self.dv, self.d = v, dv, d
        zero = d == 0
        self.degenerate = bool(np.any(zero))
        ss = np.zeros_like(s)
        ss[~zero] = s[~zero] / d[~zero]
        self.ss = ss
        # how well s is known: the code forms x + s in floating point
        ds = EPS * (np.abs(x) + np.abs(xnew) + np.abs(s)) * 2
        dss = np.zeros_like(s)
        dss[~zero] = ds[~zero] / d[~zero]
        b = (d[:, None] * h) * d[None, :] + np.diag(np.abs(g) * dv)
        self.b = b
        self.sg = d * g
        grad_q = 0.5 * (b + b.T) @ ss + self.sg
        self.qp = 0.5 * ss @ b @ ss + self.sg @ ss
        mag = 0.5 * np.abs(ss) @ np.abs(b) @ np.abs(ss) + np.abs(
            self.sg
        ) @ np.abs(ss)
        self.qp_err = (
            np.abs(grad_q) @ dss
            + 0.5 * dss @ np.abs(b) @ dss
            + 50 * EPS * mag
        )
        self.nss = np.linalg.norm(ss)
        self.nss_err = np.linalg.norm(dss) + 10 * EPS * self.nss
        # the correction for the bound-induced curvature uses the gradient at
        # the new point, as in the authors' reference implementation
        w = dv * np.abs(g if gnew is None else gnew)
        self.aug = 0.5 * ss @ (w * ss)
        self.aug_err = (np.abs(w * ss)) @ dss + 20 * EPS * abs(self.aug)

    def ratio(self, f_old, f_new):
        """(ratio, err) or None when it is not determined by what is seen"""
        if not self.ok or self.degenerate:
            return None
        num = f_old - f_new - self.aug
        num_err = self.aug_err + 4 * EPS * (
            abs(f_old - f_new) + abs(self.aug)
        )
        den = -self.qp
        if not np.isfinite(num) or not np.isfinite(den):
            return None
        if abs(den) <= 4 * self.qp_err:
            return None
        if den <= 0:
            return 0.0, 0.0
        with np.errstate(all='ignore'):
            r = num / den
        if not np.isfinite(r):
            return None
        err = num_err / den + abs(r) * self.qp_err / den + 1e-9 * abs(r)
        return r, err


def expected_radius(pre, post_ratio, finite, sm, opts):
    """intervals of radii the documented rule allows, and which rule applies"""
    delta = float(pre['delta_iter'])
    g1, g2 = opt_of(opts, 'gamma1'), opt_of(opts, 'gamma2')
    mu, eta = opt_of(opts, 'mu'), opt_of(opts, 'eta')
    t = 1e-9
    known = sm.ok and not sm.degenerate
    if known:
        lo_s = max(0.0, sm.nss * (1 - 1e-7) - 4 * sm.nss_err)
        hi_s = sm.nss * (1 + 1e-7) + 4 * sm.nss_err
    else:
        # the scaled step length cannot be reconstructed from outside
        lo_s, hi_s = 0.0, np.inf

    def shrink():
        lo = min(delta * g1, lo_s / 4) * (1 - t)
        hi = min(delta * g1, hi_s / 4) * (1 + t)
        return [(lo, hi)]

    keep = (delta * (1 - 1e-12), delta * (1 + 1e-12))
    # (the growth is limited where squares would overflow)
    up = min(g2 * delta, max(delta, 1e100))
    grow = (up * (1 - 1e-12), up * (1 + 1e-12))
    if not finite:
        return shrink(), 'nonfinite'
    if np.isnan(post_ratio):
        return [(0.0, np.inf)], 'nan'
    if post_ratio <= mu:
        return shrink(), 'shrink'
    if post_ratio >= eta:
        out = []
        lim = delta * 0.9
        if hi_s >= lim:
            out.append(grow)
        if lo_s < lim:
            out.append(keep)
        return out, 'grow' if lo_s >= lim else 'keep'
    return [keep], 'keep'
