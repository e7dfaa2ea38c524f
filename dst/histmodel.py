"""What a recorded history has to say about a run."""

import collections
import os

import numpy as np

from .model import StepModel, opt_of, options_plain, scaling
from .oracles import transitions
from .seams import REAL

SERIES = (
    'fval',
    'tr_ratio',
    'tr_radius',
    'normgrad',
    'normstep',
    'theta',
    'alpha',
    'reflections',
    'truncations',
    'accept',
    'hess_min_ev',
    'hess_max_ev',
    'hess_update_min_ev',
    'hess_update_max_ev',
    'hess_struct_update_min_ev',
    'hess_struct_update_max_ev',
    'iterations_since_tr_update',
    'step_type',
    'subspace_dim',
    'posdef',
    'newton',
    'cond_hess',
    'cond_shess',
)


def read_file(path):
    """{group: {series: list}}; raises when the file cannot be read"""
    real = REAL['h5py.File']
    out = {}
    with real(path, 'r') as f:
        for name in f:
            g = f[name]
            d = {}
            for k in g:
                v = g[k][()]
                d[k] = v.tolist() if hasattr(v, 'tolist') else v
            out[name] = d
    return out


def same_group(a, b):
    if sorted(a) != sorted(b):
        return False
    return all(repr(a[k]) == repr(b[k]) for k in a)


def near(a, b, rtol, atol=0.0):
    a, b = float(a), float(b)
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol


def evs(m):
    m = np.asarray(m)
    if not np.isfinite(m).all():
        return None
    if np.abs(m - m.T).max(initial=0) > 1e-12 * max(
        np.abs(m).max(initial=0), 1e-300
    ):
        return None
    w = np.linalg.eigvalsh(0.5 * (m + m.T))
    return w[0], w[-1], np.abs(w).max()


def check_group(c, r, g, cnt=None):
    """first disagreement between group g and run r, or None"""
    cnt = collections.Counter() if cnt is None else cnt
    n = len(r.evals) - 1
    if n == 0:
        if any(len(v) for v in g.values()):
            return 'entries although no iteration was made'
        return None
    for k in SERIES:
        if k not in g:
            return f'series {k} is missing'
    for k, v in g.items():
        if len(v) != n:
            return f'{k} has {len(v)} entries for {n} iterations'
    opts = options_plain(r.options)
    since = 0
    for e, pre, post, last in transitions(r):
        if e.k == 0:
            continue
        i = e.k - 1
        fin = bool(np.isfinite(e.f))
        acc = fin and post['tr_ratio'] > 0
        keep = post['delta'] == pre['delta_iter']
        since = since + 1 if keep else 0
        exact = {
            'fval': e.f,
            'tr_ratio': post['tr_ratio'],
            'tr_radius': pre['delta_iter'],
            'accept': acc,
            'iterations_since_tr_update': since,
        }
        for k, v in exact.items():
            got = g[k][i]
            if k == 'fval' and c.spec.get('resfun'):
                if near(got, v, 1e-11):
                    continue
            if not near(got, v, 1e-12):
                return f'{k}[{i}] is {got!r}, was {v!r}'
        v, _dv = scaling(pre['x'], pre['grad'], c.lb, c.ub)
        sx = np.linalg.norm(e.x - pre['x'])
        ex = 1e-15 * np.linalg.norm(np.abs(e.x) + np.abs(pre['x']))
        approx = {
            'normgrad': (np.linalg.norm(post['grad']), 1e-9, 0.0),
            'normstep': (sx, 1e-7, 8 * ex),
            'theta': (
                max(
                    opt_of(opts, 'theta_max'),
                    1 - np.max(np.abs(v * pre['grad'])),
                ),
                1e-9,
                1e-12,
            ),
        }
        ev = evs(post['hess'])
        if ev is not None:
            approx['hess_min_ev'] = (ev[0], 1e-6, 1e-9 * ev[2])
            approx['hess_max_ev'] = (ev[1], 1e-6, 1e-9 * ev[2])
            if ev[2] > 0 and min(abs(ev[0]), abs(ev[1])) > 0:
                co = np.linalg.cond(post['hess'])
                if co < 1e9:
                    approx['cond_hess'] = (co, 1e-5, 0.0)
        sm = StepModel(pre, e.x, c.lb, c.ub, e.g)
        if sm.ok and not sm.degenerate and np.isfinite(sm.b).all():
            co = np.linalg.cond(sm.b)
            if co < 1e8:
                approx['cond_shess'] = (co, 1e-5, 0.0)
        hs = c.spec.get('hess')
        if hs is None:
            for k in (
                'hess_update_min_ev',
                'hess_update_max_ev',
                'hess_struct_update_min_ev',
                'hess_struct_update_max_ev',
            ):
                approx[k] = (np.nan, 0, 0)
        else:
            structured = hs['cls'] in ('SSM', 'TSSM', 'GNSBFGS')
            if not acc:
                approx['hess_update_min_ev'] = (0.0, 0, 0)
                approx['hess_update_max_ev'] = (0.0, 0, 0)
            elif evs(pre['hess']) is not None and ev is not None:
                d = evs(post['hess'] - pre['hess'])
                if d is not None:
                    t = 1e-9 * (ev[2] + evs(pre['hess'])[2])
                    approx['hess_update_min_ev'] = (d[0], 1e-6, t)
                    approx['hess_update_max_ev'] = (d[1], 1e-6, t)
            ks = ('hess_struct_update_min_ev', 'hess_struct_update_max_ev')
            if not structured:
                for k in ks:
                    approx[k] = (np.nan, 0, 0)
            elif not acc:
                for k in ks:
                    approx[k] = (0.0, 0, 0)
            else:
                us = [
                    u
                    for u in r.updates
                    if u['eval'] == e.k and u['level'] == 0
                ]
                if len(us) == 1 and us[0]['A0'] is not None:
                    a0, a1 = us[0]['A0'], us[0]['A1']
                    d = evs(a1 - a0)
                    if d is not None:
                        t = 1e-9 * (
                            np.abs(a0).max() + np.abs(a1).max()
                        ) * len(a0)
                        approx[ks[0]] = (d[0], 1e-6, t)
                        approx[ks[1]] = (d[1], 1e-6, t)
        for k, (v, rt, at) in approx.items():
            cnt['entries_checked'] += 1
            if not near(g[k][i], v, rt, at):
                return f'{k}[{i}] is {g[k][i]!r}, should be {v!r}'
        a = float(g['alpha'][i])
        if not -1e-9 <= a <= 1 and not np.isnan(a):
            return f'alpha[{i}] is {a!r}'
        dim = float(g['subspace_dim'][i])
        if not 0 <= dim <= len(e.x):
            return f'subspace_dim[{i}] is {dim!r}'
        cnt['iterations_checked'] += 1
    return None


def partial_ok(r, g):
    """a group that was cut off while it was written"""
    for k, v in g.items():
        if k not in r.hist or repr(list(v)) != repr(
            np.asarray(r.hist[k]).tolist()
        ):
            if k == 'step_type':
                continue
            return False
    return True


def exists(path):
    return os.path.exists(path)
