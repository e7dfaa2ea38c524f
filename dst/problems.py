"""Objective functions served by the simulated objective service.

A problem is described by plain data (so that a scenario is a JSON document)
and is a pure function of that data.  ``value`` returns (f, g, H),
``residuals`` returns (res, sres) for least-squares problems.
"""

import numpy as np


def _rs(seed):
    return np.random.RandomState(int(seed) % (2**32 - 1))


class Problem:
    resfun = False

    def __init__(self, spec):
        self.spec = spec
        self.n = int(spec['n'])
        self.shift = float(spec.get('shift', 0.0))
        self.fscale = float(spec.get('fscale', 1.0))
        # the user's Hessian may be approximate
        self.hscale = float(spec.get('hscale', 1.0))

    def value(self, x):
        f, g, h = self._value(np.asarray(x, dtype=float))
        s = self.fscale
        return float(f) * s + self.shift, g * s, h * (s * self.hscale)

    def _value(self, x):
        raise NotImplementedError


class Quad(Problem):
    def __init__(self, spec):
        super().__init__(spec)
        r = _rs(spec['seed'])
        n = self.n
        q, _ = np.linalg.qr(r.randn(n, n))
        cond = float(spec.get('cond', 10.0))
        kind = spec.get('kind', 'spd')
        ev = np.logspace(0, np.log10(cond), n) if n > 1 else np.array([1.0])
        if kind == 'indef':
            ev = ev.copy()
            ev[0] *= -1.0
        elif kind == 'neg':
            ev = -ev
        elif kind == 'singular':
            ev = ev.copy()
            ev[0] = 0.0
        elif kind == 'zero':
            ev = np.zeros(n)
        if spec.get('diag'):
            q = np.eye(n)
        a = (q * ev) @ q.T
        self.a = 0.5 * (a + a.T)
        self.c = np.array(spec['c'], dtype=float)
        lin = spec.get('lin')
        self.b = np.array(lin, dtype=float) if lin else np.zeros(n)

    def _value(self, x):
        d = x - self.c
        ad = self.a @ d
        return 0.5 * d @ ad + self.b @ x, ad + self.b, self.a.copy()


class Rosen(Problem):
    def _value(self, x):
        n = self.n
        a = float(self.spec.get('a', 100.0))
        f = 0.0
        g = np.zeros(n)
        h = np.zeros((n, n))
        if n == 1:
            return (
                (1 - x[0]) ** 2,
                np.array([-2 * (1 - x[0])]),
                np.array([[2.0]]),
            )
        for i in range(n - 1):
            t = x[i + 1] - x[i] ** 2
            f += a * t**2 + (1 - x[i]) ** 2
            g[i] += -4 * a * t * x[i] - 2 * (1 - x[i])
            g[i + 1] += 2 * a * t
            h[i, i] += 12 * a * x[i] ** 2 - 4 * a * x[i + 1] + 2
            h[i + 1, i + 1] += 2 * a
            h[i, i + 1] += -4 * a * x[i]
            h[i + 1, i] += -4 * a * x[i]
        return f, g, h


class Trig(Problem):
    """non-convex, bounded, with stationary points of every index"""

    def __init__(self, spec):
        super().__init__(spec)
        r = _rs(spec['seed'])
        self.w = r.uniform(0.5, 2.0, self.n)
        self.p = r.uniform(-np.pi, np.pi, self.n)
        m = r.uniform(-0.5, 0.5, (self.n, self.n))
        self.m = 0.5 * (m + m.T)

    def _value(self, x):
        with np.errstate(all='ignore'):
            z = self.w * x + self.p
            mx = self.m @ np.sin(x)
            s = np.sin(x)
            c = np.cos(x)
            f = np.sum(np.cos(z)) + s @ mx + 0.05 * np.sum(x**2)
            g = -self.w * np.sin(z) + 2 * c * mx + 0.1 * x
            h = (
                np.diag(-self.w**2 * np.cos(z) - 2 * s * mx + 0.1)
                + 2 * np.outer(c, c) * self.m
            )
        return f, g, h


class Quartic(Problem):
    """sum (x-c)^4 + coupling: singular Hessian at the minimiser"""

    def __init__(self, spec):
        super().__init__(spec)
        self.c = np.array(spec['c'], dtype=float)

    def _value(self, x):
        with np.errstate(all='ignore'):
            d = x - self.c
            return (
                np.sum(d**4) + 0.1 * np.sum(d) ** 2,
                4 * d**3 + 0.2 * np.sum(d),
                np.diag(12 * d**2) + 0.2,
            )


class LogBarrier(Problem):
    """-sum log(x - c) + 0.5|x|^2: NaN outside its domain (a natural fault)"""

    def __init__(self, spec):
        super().__init__(spec)
        self.c = np.array(spec['c'], dtype=float)

    def _value(self, x):
        d = x - self.c
        n = self.n
        if np.any(d <= 0) or not np.isfinite(d).all():
            return np.nan, np.full(n, np.nan), np.full((n, n), np.nan)
        return (
            -np.sum(np.log(d)) + 0.5 * x @ x,
            -1 / d + x,
            np.diag(1 / d**2) + np.eye(n),
        )


class Flat(Problem):
    def _value(self, x):
        n = self.n
        return 0.0, np.zeros(n), np.zeros((n, n))


class Lies(Problem):
    """arbitrary replies: a deterministic function of (seed, x bits)"""

    def _value(self, x):
        # hash of the bits of x, so that equal points get equal replies
        hsh = 1469598103934665603 ^ int(self.spec['seed'])
        for b in (np.asarray(x, dtype=float) + 0.0).tobytes():
            hsh = ((hsh ^ b) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        r = _rs(hsh & 0x7FFFFFFF)
        n = self.n
        sc = 10.0 ** r.uniform(-3, 3)
        h = r.randn(n, n) * sc
        return (
            r.randn() * 10.0 ** r.uniform(-2, 2),
            r.randn(n) * 10.0 ** r.uniform(-3, 3),
            0.5 * (h + h.T),
        )


class Drift(Problem):
    """replies keep improving whatever is asked: accepted-step stress"""

    def __init__(self, spec):
        super().__init__(spec)
        r = _rs(spec['seed'])
        self.d = r.randn(self.n)

    def _value(self, x):
        with np.errstate(all='ignore'):
            t = self.d @ x
            return (
                t + 0.1 * np.sin(3 * t),
                self.d * (1 + 0.3 * np.cos(3 * t)),
                -0.9 * np.sin(3 * t) * np.outer(self.d, self.d),
            )


class Linear(Problem):
    """without a minimum, and the model is always right"""

    def __init__(self, spec):
        super().__init__(spec)
        r = _rs(spec['seed'])
        self.d = r.randn(self.n) * 10.0 ** r.uniform(-12, 2)

    def _value(self, x):
        with np.errstate(all='ignore'):
            return (
                float(self.d @ x), self.d.copy(), np.zeros((self.n, self.n))
            )


# ---- least squares ------------------------------------------------------


class LSQ(Problem):
    resfun = True

    def value(self, x):
        res, sres = self.residuals(x)
        return (
            0.5 * float(res @ res),
            res @ sres,
            sres.T @ sres,
        )

    def residuals(self, x):
        r, s = self._res(np.asarray(x, dtype=float))
        k = np.sqrt(abs(self.fscale))
        pad = int(self.spec.get('pad', 0))
        if pad:
            # residuals that are always zero
            r = np.hstack((r, np.zeros(pad)))
            s = np.vstack((s, np.zeros((pad, self.n))))
        return r * k, s * k


class Fletcher(LSQ):
    def _res(self, x):
        n = self.n
        a = np.sqrt(np.linspace(10.2, 10.8, n))
        b = np.linspace(4.6, 4.9, n)
        with np.errstate(all='ignore'):
            res = np.concatenate([a * x, b - x**2])
            sres = np.vstack([np.diag(a), np.diag(-2 * x)])
        return res, sres


class ExpFit(LSQ):
    def __init__(self, spec):
        super().__init__(spec)
        r = _rs(spec['seed'])
        m = self.n + 3
        self.t = np.linspace(0, 1, m)
        self.j = r.randn(m, self.n)
        self.x1 = np.array(spec['c'], dtype=float)
        self.y = self._model(self.x1)[0]
        if spec.get('noise'):
            self.y = self.y + float(spec['noise']) * r.randn(m)

    def _model(self, x):
        with np.errstate(all='ignore'):
            z = self.j @ x
            e = np.exp(np.clip(0.3 * z, -50, 50))
            return e, (0.3 * e)[:, None] * self.j

    def _res(self, x):
        e, d = self._model(x)
        return e - self.y, d


class LinLSQ(LSQ):
    def __init__(self, spec):
        super().__init__(spec)
        r = _rs(spec['seed'])
        m = self.n + int(spec.get('extra', 2))
        self.j = r.randn(m, self.n)
        if spec.get('rankdef') and self.n > 1:
            self.j[:, -1] = self.j[:, 0]
        self.y = self.j @ np.array(spec['c'], dtype=float)
        if spec.get('noise'):
            self.y = self.y + float(spec['noise']) * r.randn(m)

    def _res(self, x):
        return self.j @ x - self.y, self.j.copy()


class RosenLSQ(LSQ):
    def _res(self, x):
        n = self.n
        if n == 1:
            return np.array([1 - x[0]]), np.array([[-1.0]])
        res = []
        sres = []
        for i in range(n - 1):
            res.append(10 * (x[i + 1] - x[i] ** 2))
            row = np.zeros(n)
            row[i + 1] = 10
            row[i] = -20 * x[i]
            sres.append(row)
            res.append(1 - x[i])
            row = np.zeros(n)
            row[i] = -1
            sres.append(row)
        return np.array(res), np.array(sres)


FAMS = {
    'quad': Quad,
    'rosen': Rosen,
    'trig': Trig,
    'quartic': Quartic,
    'log': LogBarrier,
    'flat': Flat,
    'lies': Lies,
    'drift': Drift,
    'linear': Linear,
    'fletcher': Fletcher,
    'expfit': ExpFit,
    'linlsq': LinLSQ,
    'rosenlsq': RosenLSQ,
}


class View:
    """the same objective in other coordinates and units

    the variables of the view are z_i = a * s_i * x_{p_i}, its function value
    is b * f + o; the residuals may be listed in another order and sign
    """

    def __init__(self, spec):
        self.base = FAMS[spec['fam']](spec)
        v = spec['view']
        self.spec = spec
        self.n = self.base.n
        self.resfun = self.base.resfun
        self.perm = np.array(v.get('perm', range(self.n)), dtype=int)
        self.sign = np.array(v.get('sign', [1.0] * self.n), dtype=float)
        self.a = float(v.get('a', 1.0))
        self.b = float(v.get('b', 1.0))
        self.o = float(v.get('o', 0.0))
        self.rows = int(v.get('rows', 0))

    def inv(self, z):
        x = np.empty(self.n)
        x[self.perm] = self.sign * np.asarray(z, dtype=float) / self.a
        return x

    def vec(self, x):
        return self.a * self.sign * np.asarray(x, dtype=float)[self.perm]

    def covec(self, g):
        return self.b / self.a * self.sign * np.asarray(g)[self.perm]

    def mat(self, h):
        h = np.asarray(h)[np.ix_(self.perm, self.perm)]
        return self.b / self.a**2 * (self.sign[:, None] * h * self.sign)

    def value(self, z):
        f, g, h = self.base.value(self.inv(z))
        return self.b * f + self.o, self.covec(g), self.mat(h)

    def residuals(self, z):
        res, sres = self.base.residuals(self.inv(z))
        sres = self.sign * sres[:, self.perm]
        if self.rows:
            m = len(res)
            r = _rs(self.rows)
            p = r.permutation(m)
            s = r.choice([-1.0, 1.0], m)
            res, sres = s * res[p], s[:, None] * sres[p]
        return res, sres


def make(spec):
    if spec.get('view'):
        return View(spec)
    return FAMS[spec['fam']](spec)


def box_optimum(p, lb, ub):
    """exact minimiser of a strictly convex quadratic (or linear least squares)
    problem over a box: enumeration of the active sets"""
    import itertools

    n = p.n
    lb, ub = np.asarray(lb, float), np.asarray(ub, float)
    if p.resfun:
        hh = p.j.T @ p.j
        lin = -p.j.T @ p.y
    else:
        hh = p.a
        lin = p.b - p.a @ p.c
    best = None
    for s in itertools.product((0, -1, 1), repeat=n):
        s = np.array(s)
        x = np.where(s == -1, lb, np.where(s == 1, ub, 0.0))
        if not np.all(np.isfinite(x)):
            continue
        fr, fx = np.flatnonzero(s == 0), np.flatnonzero(s)
        if len(fr):
            rhs = -lin[fr] - hh[np.ix_(fr, fx)] @ x[fx]
            x[fr] = np.linalg.solve(hh[np.ix_(fr, fr)], rhs)
        tol = 1e-10 * np.maximum(1.0, np.abs(x))
        if np.any(x < lb - tol) or np.any(x > ub + tol):
            continue
        x = np.clip(x, lb, ub)
        f = p.value(x)[0]
        if best is None or f < best[0]:
            best = (f, x)
    return best
