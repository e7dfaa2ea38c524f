"""Running scenarios and comparing runs."""

import contextlib
import hashlib

import numpy as np

from .disk import Disk
from .sched import Sched
from .world import Client, SimHang, World


def simulate(sc, tmp=None, clients=None, plan=None, disk=None, hook=None,
             around=None):
    """build and run the clients of a scenario in one world

    (around: what the process is like meanwhile)"""
    w = World(sc, tmp)
    specs = sc['clients'] if clients is None else clients
    plan = sc.get('plan') if plan is None else plan
    disk = sc.get('disk') if disk is None else disk
    with w, around or contextlib.nullcontext():
        if disk is not None and disk is not False:
            w.disk = Disk(w, disk)
        for i, cs in enumerate(specs):
            c = Client(w, i, cs)
            w.clients.append(c)
            c.build()
        if hook is not None:
            hook(w)
        if plan:
            w.sched = Sched(w, plan)
            w.sched.run([lambda c=c: run_client(c) for c in w.clients])
            for i, e in sorted(w.sched.errors.items()):
                w.event('thread-error', i, type(e).__name__)
        else:
            for c in w.clients:
                run_client(c)
        if w.disk is not None:
            w.disk.close()
    return w


def run_client(c):
    for rs in c.spec['runs']:
        if c.w.killed or (c.w.disk is not None and c.w.disk.crashed):
            return
        c.do_run(rs)


# -- comparing two runs of the same thing -----------------------------------


def eqv(a, b):
    if a is None or b is None:
        return a is None and b is None
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'OSU' or y.dtype.kind in 'OSU':
            return bool(np.all(x == y))
        return bool(np.array_equal(x, y, equal_nan=True))
    except Exception:
        return a == b


SKIP0 = ('fval', 'grad', 'hess', 'x_min', 'grad_min', 'tr_ratio')


def diff_runs(a, b, hist=True, best=True):
    """first difference between two runs that should be identical"""
    for i, (p, q) in enumerate(zip(a.evals, b.evals)):
        if not eqv(p.x, q.x):
            return (
                f'evaluation {i} at {p.x.tolist()} instead of '
                f'{q.x.tolist()}'
            )
        for k in p.snap:
            if i == 0 and k in SKIP0:
                continue
            if i <= 1 and k == 'tr_ratio':
                continue
            if not eqv(p.snap[k], q.snap[k]):
                return f'{k} at evaluation {i}: {p.snap[k]!r} instead of {q.snap[k]!r}'
    if len(a.evals) != len(b.evals):
        return f'{len(a.evals)} evaluations instead of {len(b.evals)}'
    if type(a.exc) is not type(b.exc):
        return f'ended with {a.exc!r} instead of {b.exc!r}'
    keys = list(a.final)
    if len(a.evals) == 0 or not a.evals[0].ok:
        keys = ['exitflag', 'converged', 'iteration', 'fval_min']
    elif len(a.evals) == 1:
        keys = [k for k in keys if k not in ('tr_ratio', 'delta_iter')]
        if a.exc is not None:
            keys = ['exitflag', 'converged', 'iteration']
    for k in keys:
        if not eqv(a.final[k], b.final[k]):
            return f'final {k}: {a.final[k]!r} instead of {b.final[k]!r}'
    if a.exc is None:
        for i, n in enumerate(('fval', 'x', 'grad', 'hess')):
            if not eqv(a.ret_copy[i], b.ret_copy[i]):
                return f'returned {n}: {a.ret_copy[i]!r} instead of {b.ret_copy[i]!r}'
    if hist and a.hist is not None and b.hist is not None:
        if sorted(a.hist) != sorted(b.hist):
            return f'statistics {sorted(a.hist)} instead of {sorted(b.hist)}'
        for k in a.hist:
            if not eqv(a.hist[k], b.hist[k]):
                return f'statistic {k}: {a.hist[k]!r} instead of {b.hist[k]!r}'
    return None


def result_intact(r):
    """the tuple returned earlier still holds what it held then"""
    if r.exc is not None or r.result is None or r.scribbled:
        return True
    return all(eqv(x, y) for x, y in zip(r.result, r.ret_copy))


def run_sig(c, r):
    """what happened in a run, coarsely"""
    s = []
    ev = r.evals
    for i, e in enumerate(ev):
        post = r.final if i == len(ev) - 1 else ev[i + 1].snap
        d0, d1 = e.snap['delta_iter'], post['delta']
        try:
            ch = '=' if d0 == d1 else ('-' if d1 < d0 else '+')
        except Exception:
            ch = '?'
        try:
            acc = int(post['tr_ratio'] > 0)
        except Exception:
            acc = 2
        s.append((ch, acc, tuple(e.faults)))
    o = c.spec['options']
    return (
        str(o.get('subspace_solver')),
        str(o.get('stepback_strategy')),
        (c.spec.get('hess') or {}).get('cls'),
        len(c.lb),
        tuple(s),
        type(r.exc).__name__ if r.exc is not None else None,
        int(r.final['exitflag']) if r.final['exitflag'] is not None else None,
    )


def sha(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def hung(r):
    return isinstance(r.exc, SimHang)
