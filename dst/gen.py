"""Scenario generation: one integer -> one scenario (plain data)."""

import numpy as np

HUGE = float('inf')

SUBS = ['2D', 'full', 'scg']
STEPB = ['reflect', 'reflect_single', 'truncate', 'mixed', 'refine']


def rng_for(seed, prop, index):
    key = [int(seed) & 0xFFFFFFFF, index & 0xFFFFFFFF]
    key += [ord(ch) for ch in prop]
    return np.random.Generator(np.random.PCG64(np.random.SeedSequence(key)))


def pick(r, seq, p=None):
    return seq[int(r.choice(len(seq), p=p))]


def fl(v):
    return [float(x) for x in v]


def bounds(r, n, mode=None):
    """lb, ub, x0"""
    mode = mode or pick(r, ['box', 'mixed', 'none', 'onesided', 'tight'])
    scale = 10.0 ** (r.uniform(-1, 1) if r.random() < 0.7 else r.uniform(-3, 3))
    mid = r.normal(size=n) * scale
    width = scale * 10.0 ** r.uniform(-0.5, 0.7, size=n)
    lb, ub = mid - width, mid + width
    if mode == 'none':
        lb, ub = np.full(n, -HUGE), np.full(n, HUGE)
        x0 = mid + r.normal(size=n) * scale
    else:
        if mode == 'mixed':
            lb = np.where(r.random(n) < 0.4, -HUGE, lb)
            ub = np.where(r.random(n) < 0.4, HUGE, ub)
        elif mode == 'onesided':
            if r.random() < 0.5:
                lb = np.full(n, -HUGE)
            else:
                ub = np.full(n, HUGE)
        elif mode == 'tight':
            w = width * 10.0 ** r.uniform(-4, -1, size=n)
            lb, ub = mid - w, mid + w
        lo = np.where(np.isfinite(lb), lb, mid - 2 * width)
        hi = np.where(np.isfinite(ub), ub, mid + 2 * width)
        t = r.random(n)
        kind = r.random()
        if kind < 0.15:
            # on or next to a bound
            t = np.where(r.random(n) < 0.5, np.round(t), t)
        elif kind < 0.3:
            t = np.where(r.random(n) < 0.5, t * 1e-6, t)
        x0 = lo + t * (hi - lo)
        x0 = np.clip(x0, lb, ub)
    return fl(lb), fl(ub), fl(x0)


def problem(r, n, lb, ub, x0, fams=None, smooth=False):
    """(spec, resfun_capable)"""
    fams = fams or [
        'quad',
        'quad',
        'rosen',
        'trig',
        'quartic',
        'log',
        'flat',
        'lies',
        'drift',
        'fletcher',
        'expfit',
        'linlsq',
        'rosenlsq',
    ]
    fam = pick(r, fams)
    lb, ub, x0 = np.array(lb), np.array(ub), np.array(x0)
    spec = {'fam': fam, 'n': n, 'seed': int(r.integers(1 << 30))}
    lo = np.where(np.isfinite(lb), lb, x0 - 3)
    hi = np.where(np.isfinite(ub), ub, x0 + 3)
    c = lo + r.uniform(-0.5, 1.5, n) * (hi - lo)
    if fam in ('quad', 'quartic', 'log', 'expfit', 'linlsq'):
        spec['c'] = fl(c)
    if fam == 'log':
        # start inside the domain, some of the box outside
        spec['c'] = fl(x0 - np.abs(r.normal(size=n)) * 10.0 ** r.uniform(-2, 1))
    if fam == 'quad':
        spec['kind'] = pick(
            r,
            ['spd', 'indef', 'singular', 'neg', 'zero'],
            p=[0.5, 0.2, 0.1, 0.1, 0.1],
        )
        spec['cond'] = float(10.0 ** r.uniform(0, 4))
        if r.random() < 0.3:
            spec['diag'] = True
        if spec['kind'] == 'zero' or r.random() < 0.2:
            spec['lin'] = fl(r.normal(size=n))
        if r.random() < 0.05:
            spec['c'] = fl(x0)  # start at the stationary point
    if fam == 'rosen':
        spec['a'] = float(10.0 ** r.uniform(0, 2))
    if fam in ('expfit', 'linlsq') and r.random() < 0.6:
        spec['noise'] = float(10.0 ** r.uniform(-3, 0))
    if fam == 'linlsq':
        spec['extra'] = int(r.integers(0, 4))
        if r.random() < 0.2:
            spec['rankdef'] = True
    if r.random() < 0.25:
        spec['fscale'] = float(10.0 ** r.uniform(-4, 4))
    if r.random() < 0.25 and fam not in (
        'fletcher',
        'expfit',
        'linlsq',
        'rosenlsq',
    ):
        spec['shift'] = float(r.normal() * 10.0 ** r.uniform(-2, 4))
    if r.random() < 0.07 and fam not in (
        'fletcher',
        'expfit',
        'linlsq',
        'rosenlsq',
    ):
        spec['hscale'] = float(r.uniform(0.55, 2.5))
    return spec, fam in ('fletcher', 'expfit', 'linlsq', 'rosenlsq')


def iter_hess(r):
    k = r.random()
    if k < 0.25:
        return {'cls': 'BFGS', 'args': {}}
    if k < 0.4:
        return {'cls': 'DFP', 'args': {}}
    if k < 0.6:
        return {'cls': 'SR1', 'args': {}}
    if k < 0.72:
        return {'cls': 'BG', 'args': {}}
    if k < 0.8:
        return {'cls': 'BB', 'args': {}}
    if r.random() < 0.2:
        # allowed, though without a guarantee
        return {'cls': 'Broyden', 'args': {'phi': float(r.uniform(-0.7, 1.7))}}
    return {'cls': 'Broyden', 'args': {'phi': float(r.uniform(0, 1))}}


def hessian(r, resfun_ok, p_none=0.45):
    """(hess spec | None, resfun)"""
    h, resfun = _hessian(r, resfun_ok, p_none)
    if h is not None and "happ" in h["args"] and r.random() < 0.2:
        # the inner scheme is left to the default
        del h['args']['happ']
    return h, resfun


def _hessian(r, resfun_ok, p_none):
    if resfun_ok and r.random() < 0.7:
        k = pick(r, ['FX', 'SSM', 'TSSM', 'GNSBFGS'])
        if k == 'FX':
            a = {'happ': iter_hess(r)}
            if r.random() < 0.5:
                a['hybrid_tol'] = float(r.uniform(0.01, 0.6))
        elif k == 'GNSBFGS':
            a = {}
            if r.random() < 0.3:
                a['hybrid_tol'] = float(10.0 ** r.uniform(-6, 0))
        else:
            a = {'phi': pick(r, [0.0, 0.5, 1.0])}
            if r.random() < 0.1:
                a['phi'] = float(r.uniform(-0.5, 1.5))
        if k != 'FX' and r.random() < 0.2:
            a['enforce_curv_cond'] = False
        return {'cls': k, 'args': a}, True
    if r.random() < p_none:
        return None, False
    k = r.random()
    if k < 0.6:
        h = iter_hess(r)
        if r.random() < 0.15 and h['cls'] in ('BFGS', 'DFP', 'Broyden'):
            h['args']['enforce_curv_cond'] = False
        return h, False
    if k < 0.8:
        return {
            'cls': 'HybridFixed',
            'args': {
                'happ': iter_hess(r),
                'switch_iteration': int(r.integers(1, 8)),
            },
        }, False
    return {
        'cls': 'HybridFraction',
        'args': {
            'happ': iter_hess(r),
            'switch_threshold': float(r.uniform(0.02, 1.2)),
        },
    }, False


def options(r, n, maxiter=40, stress=True):
    o = {}
    if r.random() < 0.06:
        maxiter *= 4
    o['maxiter'] = int(r.integers(3, maxiter + 1))
    if stress and r.random() < 0.03:
        o['maxiter'] = int(r.integers(0, 3))
    long = maxiter >= 14 and r.random() < 0.015
    if long:
        # far beyond what usual problems need
        o['maxiter'] = int(r.integers(120, 400))
    o['subspace_solver'] = pick(r, SUBS)
    sb = pick(r, STEPB, p=[0.4, 0.15, 0.2, 0.2, 0.05])
    if sb == 'refine':
        o['maxiter'] = min(o['maxiter'], 8)
        if o['subspace_solver'] == 'scg':
            o['subspace_solver'] = '2D'
    o['stepback_strategy'] = sb
    if r.random() < 0.5:
        o['fatol'] = pick(r, [0.0, 0.0, 1e-8, 1e-4, 1e-2])
        o['frtol'] = pick(r, [0.0, 1e-8, 1e-4, 1e-2])
    if r.random() < 0.3:
        o['gatol'] = pick(r, [0.0, 1e-6, 1e-3, 1e-1])
        o['grtol'] = pick(r, [0.0, 0.0, 1e-4, 1e-2])
    if r.random() < 0.3:
        o['xtol'] = pick(r, [1e-8, 1e-4, 1e-2, 1e-1])
    if r.random() < 0.5:
        o['delta_init'] = float(10.0 ** r.uniform(-2, 2))
    if r.random() < 0.3:
        o['theta_max'] = float(r.uniform(0.5, 0.99))
    if r.random() < 0.3:
        o['mu'] = float(r.uniform(0.01, 0.4))
        o['eta'] = float(r.uniform(0.5, 0.95))
    if r.random() < 0.3:
        o['gamma1'] = float(r.uniform(0.1, 0.6))
        o['gamma2'] = float(r.uniform(1.2, 4.0))
    if long and r.random() < 0.8:
        o.update(fatol=0.0, frtol=0.0, gatol=0.0, grtol=0.0)
        o.pop('xtol', None)
    # leave some options to their defaults
    if r.random() < 0.12:
        del o['subspace_solver']
    if r.random() < 0.12:
        del o['stepback_strategy']
    return o


REPLY_FAULTS = ['f_bad', 'f_bad', 'f_bad', 'f_bump', 'f_huge', 'g_zero']
ABORT_FAULTS = ['raise', 'kbd', 'mem', 'g_bad', 'h_bad', 'malformed', 'stop']
MALFORMED = [
    'short',
    'long',
    'list',
    'none',
    'fvec',
    'f2d',
    'gshort',
    'glong',
    'gcol',
    'grow',
    'gscalar',
    'hsmall',
    'hrow',
    'hscalar',
    'hnonsq',
]


def fault(r, kind, k, n):
    f = {'k': int(k), 'kind': kind}
    if kind == 'f_bad':
        f['val'] = pick(r, ['nan', 'inf', 'ninf'])
        f['gmode'] = pick(r, ['nan', 'zero', 'keep'])
        f['j'] = int(r.integers(0, 64))
    elif kind in ('g_bad', 'h_bad'):
        f['val'] = pick(r, ['nan', 'inf', 'ninf'])
        f['j'] = int(r.integers(0, 64))
        f['i'] = int(r.integers(0, 64))
    elif kind in ('f_bump',):
        f['dv'] = float(r.normal() * 10.0 ** r.uniform(-3, 2))
    elif kind == 'f_huge':
        f['dv'] = float(pick(r, [1e6, 1e150, -1e6, 1e300]))
    elif kind == 'malformed':
        f['how'] = pick(r, MALFORMED)
    elif kind == 'slow':
        f['dt'] = float(10.0 ** r.uniform(-1, 3))
    elif kind == 'wall':
        f['dt'] = float(
            pick(r, [-1, 1]) * 10.0 ** r.uniform(0, 6)
        )
    return f


def faults(r, n, maxk, p_abort=0.15, rate=None, kinds=None, start=0.03):
    """a fault plan: mostly transient failures placed inside the run"""
    out = []
    kinds = kinds or REPLY_FAULTS
    m = pick(r, [0, 1, 2, 3, 5], p=[0.25, 0.25, 0.2, 0.2, 0.1])
    for _ in range(m):
        k = 1 + int(r.integers(0, max(1, min(maxk, 25))))
        f = fault(r, pick(r, kinds), k, n)
        if r.random() < 0.15:
            f['until'] = k + int(r.integers(1, 6))
        out.append(f)
    if r.random() < 0.05:
        k = 1 + int(r.integers(0, 10))
        f = fault(r, 'f_bad', k, n)
        f['until'] = 10**9
        out.append(f)
    if r.random() < p_abort:
        k = 1 + int(r.integers(0, max(1, min(maxk, 20))))
        out.append(fault(r, pick(r, ABORT_FAULTS), k, n))
    if r.random() < start:
        out.append(
            fault(
                r,
                pick(r, ['f_bad', 'g_bad', 'h_bad', 'raise', 'malformed']),
                0,
                n,
            )
        )
    return out


ABORT_KINDS = [
    'raise',
    'kbd',
    'mem',
    'stop',
    'value',
    'runtime',
    'arith',
    'os',
    'timeout',
    'linalg',
    'key',
    'type',
    'attr',
    'notimpl',
    'sysexit',
    'base',
]
# what strikes at any line: Ctrl-C, failing allocations, signal handlers
ASYNC = ['kbd', 'mem', 'timeout', 'sysexit', 'base']
ITERATIVE = ('BFGS', 'DFP', 'SR1', 'BG', 'BB', 'Broyden')


def decorate(r, c):
    """rarely used ways to call"""
    lb, ub = np.array(c['lb']), np.array(c['ub'])
    for i, rs in enumerate(c['runs']):
        if r.random() < 0.04:
            x = np.round(np.array(rs['x0']))
            if r.random() < 0.5 and c['problem']['fam'] != 'log':
                # integer bounds, start on one of them
                fin = np.isfinite(lb) & np.isfinite(ub)
                wide = np.floor(ub) - np.ceil(lb) >= 1
                if np.all(fin & wide) and len(c['runs']) == 1:
                    c['lb'], c['ub'] = fl(np.ceil(lb)), fl(np.floor(ub))
                    x = np.where(
                        r.random(len(x)) < 0.5,
                        np.array(c['lb']),
                        np.array(c['ub']),
                    )
            if np.all(x >= np.array(c['lb'])) and np.all(
                x <= np.array(c['ub'])
            ) and np.all(np.abs(x) < 1e6):
                rs['x0'] = fl(x)
                rs['x0_dtype'] = 'int'
        elif i and r.random() < 0.3:
            rs['x0_from'] = pick(r, ['last', 'best'])
        if r.random() < 0.1:
            rs['start_id'] = f'run{int(r.integers(100))}'
    if r.random() < 0.1:
        c['funargs'] = {'tag': int(r.integers(100))}
    if r.random() < 0.1:
        c['verbose'] = int(pick(r, [10, 20, 30]))
    if r.random() < 0.1:
        for rs in c['runs']:
            rs['latency'] = fl(10.0 ** r.uniform(-3, 2, 3))


def infeasible_start(r, c):
    rs = c['runs'][-1]
    lb, ub = np.array(c['lb']), np.array(c['ub'])
    x = np.array(rs['x0'])
    if r.random() < 0.15:
        # not a point at all
        x[int(r.integers(len(x)))] = np.nan
        rs['x0'] = fl(x)
        rs['infeasible'] = True
        rs.pop('x0_from', None)
        rs.pop('x0_dtype', None)
        return
    fin = [(i, s) for i in range(len(x)) for s in (0, 1)
           if np.isfinite((lb, ub)[s][i])]
    if not fin:
        return
    i, s = fin[int(r.integers(len(fin)))]
    d = 10.0 ** r.uniform(-8, 1) * max(1.0, abs(x[i]))
    x[i] = lb[i] - d if s == 0 else ub[i] + d
    rs['x0'] = fl(x)
    rs['infeasible'] = True
    rs.pop('x0_from', None)
    rs.pop('x0_dtype', None)


def tolerances(r, c):
    """provoke near-simultaneous and unusual stopping criteria"""
    o = c['options']
    if r.random() < 0.5:
        for k, vs in (
            ('fatol', [0.0, 1e-8, 1e-3, 1e-1, 1.0]),
            ('frtol', [0.0, 1e-8, 1e-3, 1e-1]),
            ('xtol', [0, 1e-6, 1e-2, 0.3]),
            ('gatol', [0.0, 1e-6, 1e-2, 1.0]),
            ('grtol', [0, 1e-4, 1e-1]),
        ):
            if r.random() < 0.5:
                o[k] = pick(r, vs)
    if r.random() < 0.1:
        o['maxtime'] = float(10.0 ** r.uniform(-3, 2))
        for rs in c['runs']:
            rs['latency'] = fl(10.0 ** r.uniform(-3, 0, 3))
    if r.random() < 0.15:
        o['maxiter'] = int(r.integers(1, 6))


def dim(r):
    if r.random() < 0.02:
        return int(pick(r, [9, 10, 12, 16, 20, 25]))
    return int(
        pick(
            r,
            [1, 2, 3, 4, 5, 6, 8],
            p=[0.1, 0.35, 0.25, 0.12, 0.1, 0.05, 0.03],
        )
    )


def client(r, maxiter=40, nruns=1, p_alias=0.0, fams=None, p_none=0.45,
           fault_kw=None, bmode=None, n=None):
    n = n or dim(r)
    lb, ub, x0 = bounds(r, n, bmode)
    prob, ls = problem(r, n, lb, ub, x0, fams)
    hs, resfun = hessian(r, ls, p_none)
    o = options(r, n, maxiter)
    if hs is not None and hs['cls'] == 'HybridFraction' and r.random() < 0.5:
        # this scheme does not switch in the first 25 iterations
        o['maxiter'] = int(r.integers(28, 70))
        if r.random() < 0.7:
            o.update(fatol=0.0, frtol=0.0)
        if o.get('stepback_strategy') == 'refine':
            o['stepback_strategy'] = 'reflect'
        if r.random() < 0.4 and not ls:
            # many steps whose ratio is neither good nor bad
            prob['hscale'] = float(r.uniform(0.55, 0.9))
            hs['args']['switch_threshold'] = float(r.uniform(0.3, 1.2))
    c = {
        'problem': prob,
        'lb': lb,
        'ub': ub,
        'options': o,
        'hess': hs,
        'resfun': resfun,
        'verbose': 40,
        'runs': [],
    }
    if r.random() < p_alias:
        c['alias'] = pick(r, ['reuse', 'scribble', 'keep'])
    for i in range(nruns):
        c['runs'].append(
            run_spec(r, c, x0 if i == 0 else None, fault_kw or {})
        )
    if r.random() < 0.05:
        c['rep'] = spelling(r, o)
    return c


def spelling(r, o):
    """arrays as other libraries return them, enum members for strings"""
    rep = {}
    for k in ('_lb', '_ub', '_x0', '_hess0', '_reply'):
        if r.random() < 0.5:
            rep[k] = pick(r, ['F', 'strided', 'neg', 'ro', 'sub', '>f8', 'g'])
    if r.random() < 0.5:
        rep['_opts'] = {k: 'key enum' for k in sorted(o) if r.random() < 0.5}
    return rep


def start(r, lb, ub, x0):
    lb, ub, x0 = np.array(lb), np.array(ub), np.array(x0)
    n = len(lb)
    lo = np.where(np.isfinite(lb), lb, x0 - 2)
    hi = np.where(np.isfinite(ub), ub, x0 + 2)
    x = lo + r.random(n) * (hi - lo)
    return fl(np.clip(x, lb, ub))


def run_spec(r, c, x0=None, fault_kw=None):
    n = len(c['lb'])
    if x0 is None:
        x0 = start(r, c['lb'], c['ub'], c['runs'][0]['x0'])
    rs = {
        'x0': x0,
        'faults': faults(r, n, c['options']['maxiter'], **(fault_kw or {})),
    }
    if c['hess'] is not None and r.random() < 0.25:
        if r.random() < 0.5 and (
            c['resfun'] or c['hess']['cls'].startswith('Hybrid')
        ):
            rs['hess0'] = 'hess'
        else:
            a = r.normal(size=(n, n))
            a = a @ a.T + np.eye(n) * 0.1
            a = 0.5 * (a + a.T)
            if c['hess']['cls'] in ('BG', 'BB') and r.random() < 0.5:
                # these do not keep symmetry anyway
                a = a + 0.1 * np.triu(r.normal(size=(n, n)), 1)
            rs['hess0'] = [fl(row) for row in a * 10.0 ** r.uniform(-1, 1)]
    return rs


def unbounded(r, c):
    """nothing stops the radius from growing"""
    n = len(c['lb'])
    if c.get('resfun'):
        return
    c['problem'] = {
        'fam': 'linear', 'n': n, 'seed': int(r.integers(0, 2**30)),
    }
    lb = [-np.inf] * n
    if r.random() < 0.3:
        i = int(r.integers(0, n))
        lb[i] = min(-1.0, *(rs['x0'][i] - 1 for rs in c['runs']))
    c['lb'], c['ub'] = lb, [np.inf] * n
    c['options'].update(
        gamma2=float(10.0 ** r.uniform(0.3, 12)), fatol=0.0, frtol=0.0,
        gatol=0.0, grtol=0.0, maxiter=int(r.integers(60, 200)),
    )
    c['options'].pop('xtol', None)
