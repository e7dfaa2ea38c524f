"""The simulated world: clock, log sink, objective service, clients.

Everything that happens in a world is a pure function of its scenario (plain
data) and the code under test.
"""

import collections
import hashlib
import inspect
import logging
import os
import pathlib
import shutil
import sys
import uuid
import warnings

import numpy as np

from . import pristine, seams
from .model import DEFAULTS, options_plain
from .problems import make
from .sched import SimAbort


class SimHang(BaseException):
    """raised inside the code under test when it exceeds its step budget"""


class SimKill(BaseException):
    """the process is killed here"""


class BackendError(Exception):
    """what a failing objective backend raises"""


class BackendExit(BaseException):
    """what a failing objective backend raises when it wants to unwind"""


ABORTS = {
    'raise': BackendError,
    'kbd': KeyboardInterrupt,
    'mem': MemoryError,
    'stop': StopIteration,
    'value': ValueError,
    'runtime': RuntimeError,
    'arith': FloatingPointError,
    'os': OSError,
    'timeout': TimeoutError,
    'linalg': np.linalg.LinAlgError,
    'key': KeyError,
    'type': TypeError,
    'attr': AttributeError,
    'notimpl': NotImplementedError,
    'sysexit': SystemExit,
    'base': BackendExit,
}


class Clock:
    def __init__(self, wall0=1.7e9):
        self.mono = 1000.0
        self.wall_off = wall0 - 1000.0
        self.reads = 0

    def read(self, kind):
        self.reads += 1
        if kind == 'wall':
            return self.mono + self.wall_off
        if kind == 'cpu':
            # waiting for the objective service costs no processor time
            return self.reads * 1e-6
        return self.mono

    def advance(self, dt):
        if dt > 0:
            self.mono += float(dt)

    def step_wall(self, dt):
        self.wall_off += float(dt)


class World:
    def __init__(self, scenario, tmp=None):
        self.sc = scenario
        self.tmp = tmp  # scratch directory for history files
        self.clock = Clock()
        self.disk = None
        self.fs_undo = []
        self.sched = None
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self._uuid = 0
        self.log = hashlib.sha256()
        self.nlog = 0
        self.lines = 0  # fides lines executed in this world
        self.budget = None  # lines left for the current optimizer call
        self.stderr_buf = []
        self.run_stack = {}  # thread -> runs that are active in it
        self.stderr_mode = scenario.get('stderr', 'ok')
        self.stderr_n = 0
        self.interrupt_at = {}
        self.sites = set()
        self.trace_sites = bool(scenario.get('trace_sites'))
        self.clients = []
        self.instr = bool(scenario.get('instr'))
        self.keep = []  # debug event list
        self.verbose_log = False
        self.shared = {}
        self.killed = False
        self.after_run = None
        self.env_probe = None
        self.at_eval = None

    # -- seams -----------------------------------------------------------
    def next_uuid(self, kind):
        self._uuid += 1
        h = hashlib.sha256(
            f'{kind}-{self.sc.get("seed")}-{self._uuid}'.encode()
        ).digest()
        return uuid.UUID(bytes=h[:16], version=1)

    def stderr_write(self, s):
        self.stderr_n += 1
        m = self.stderr_mode
        if m == 'epipe' and self.stderr_n > int(
            self.sc.get('stderr_after', 0)
        ):
            self.faults['stderr_epipe'] += 1
            raise BrokenPipeError(32, 'Broken pipe')
        if m == 'slow':
            self.clock.advance(0.01)
            self.faults['stderr_slow'] += 1
        me = self._tid()
        st = self.run_stack.get(me)
        self.stderr_buf.append((st[-1] if st else None, s))
        return len(s)

    def stderr_flush(self):
        if self.stderr_mode == 'epipe' and self.stderr_n > int(
            self.sc.get('stderr_after', 0)
        ):
            raise BrokenPipeError(32, 'Broken pipe')

    def _tid(self):
        return self.sched.current if self.sched is not None else 0

    def on_line(self, code, lineno):
        self.lines += 1
        if self.budget is not None:
            b = self.budget
            me = self._tid()
            b[me] = b.get(me, 0) - 1
            if b[me] < 0:
                b[me] = 10**9
                self.event('hang', me)
                raise SimHang()
        if self.interrupt_at:
            me = self._tid()
            k = self.interrupt_at.get(me)
            if k is not None:
                if k <= 1:
                    del self.interrupt_at[me]
                    run = self.run_stack[me][-1]
                    kind = run.spec.get('interrupt_with', 'kbd')
                    self.faults[
                        'interrupt_at_line'
                        if kind == 'kbd'
                        else f'{ABORTS[kind].__name__}_at_line'
                    ] += 1
                    self.event('interrupt', me, code.co_name)
                    run.raised = ABORTS[kind]()
                    raise run.raised
                self.interrupt_at[me] = k - 1
        if self.sched is not None:
            self.sched.point(code.co_name, lineno)

    def on_instruction(self, code, offset):
        self.on_line(code, offset)

    # -- log -------------------------------------------------------------
    def event(self, *args):
        self.nlog += 1
        self.log.update(repr(args).encode())
        if self.verbose_log:
            self.keep.append(args)

    def digest(self):
        return self.log.hexdigest()[:16]

    # -- running ---------------------------------------------------------
    def set_budget(self, n):
        if self.budget is None:
            self.budget = {}
        # an executed line is about a dozen instructions
        self.budget[self._tid()] = 20 * n if self.instr else n

    def __enter__(self):
        self._ctx = warnings.catch_warnings()
        self._ctx.__enter__()
        warnings.simplefilter('ignore')
        self._np = np.seterr(all='ignore')
        self._err = sys.stderr
        np.random.seed(12345)
        import random

        random.seed(12345)
        pristine.restore()
        seams.set_granularity(self.instr)
        seams.activate(self)
        sys.stderr = seams.STDERR
        return self

    def __exit__(self, *a):
        seams.deactivate()
        sys.stderr = self._err
        np.seterr(**self._np)
        self._ctx.__exit__(None, None, None)
        # the package registers one named logger per run and never drops it
        d = logging.Logger.manager.loggerDict
        for name in [k for k in d if k.startswith('fides')]:
            lg = d[name]
            for h in list(getattr(lg, 'handlers', [])):
                lg.removeHandler(h)
                try:
                    h.close()
                except Exception:
                    pass
            if name != 'fides':
                del d[name]


def hexf(v):
    a = np.atleast_1d(np.asarray(v, dtype=float)).ravel()
    return hashlib.sha1(a.tobytes()).hexdigest()[:12]


SNAP = (
    'x',
    'fval',
    'grad',
    'hess',
    'x_min',
    'fval_min',
    'grad_min',
    'delta',
    'delta_iter',
    'tr_ratio',
    'iteration',
    'exitflag',
    'converged',
)


def _cp(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def snapshot(opt):
    return {k: _cp(getattr(opt, k, None)) for k in SNAP}


class Sub(np.ndarray):
    """what other array libraries hand over"""


def represent(a, how):
    """the same numbers in another data type or memory layout (the array
    itself where that is not possible)"""
    if not how or not isinstance(a, np.ndarray) or a.ndim == 0:
        return a
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full(tuple(2 * n + 1 for n in a.shape), 3.5)
        b = b[tuple(slice(1, None, 2) for _ in a.shape)]
        b[...] = a
        return b
    if how == 'neg':
        r = (slice(None, None, -1),) * a.ndim
        return np.array(a[r], order='C')[r]
    if how == 'ro':
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == 'sub':
        return a.copy().view(Sub)
    with np.errstate(all='ignore'):
        b = a.astype(how)
        if np.array_equal(b.astype(float), a, equal_nan=True):
            return b
    return a


def represent_scalar(f, how):
    if not how:
        return f
    if how == 'int':
        return int(f) if np.isfinite(f) and f == int(f) else f
    with np.errstate(all='ignore'):
        try:
            v = np.array([f], dtype=float).astype(how)[0]
            same = float(v) == f
        except (ValueError, OverflowError):
            return f
    return v if same else f


def rounded(a, how):
    """numbers that other data types can hold"""
    if not how:
        return a
    with np.errstate(all='ignore'):
        if how == 'i':
            return np.round(a) + 0.0
        return np.asarray(a, dtype=how).astype(float) + 0.0


def represent_options(opts, how):
    """the same options, spelled differently"""
    import fides

    out = {}
    for k, v in opts.items():
        h = how.get(k) or how.get('*') or ''
        if 'enum' in h:
            if k == 'subspace_solver':
                v = fides.SubSpaceDim(v)
            elif k == 'stepback_strategy':
                v = fides.StepBackStrategy(v)
        num = [x for x in h.split() if x.startswith('num')]
        if num and isinstance(v, (int, float)):
            if k == 'maxiter':
                v = float(v) if 'float' in num[0] else np.int16(v)
            else:
                kind = num[0].partition(':')[2]
                v = represent_scalar(float(v), kind)
        if 'key' in h:
            k = fides.Options(k)
        out[k] = v
    return out


class Eval:
    __slots__ = (
        'k',
        'x',
        'xref',
        'f',
        'g',
        'H',
        'res',
        'sres',
        'snap',
        'env',
        'faults',
        't0',
        't1',
        'ok',
    )


class RunRec:
    """one call of minimize()"""

    def __init__(self):
        self.evals = []
        self.result = None
        self.exc = None
        self.final = None
        self.hist = None
        self.updates = []
        self.t0 = self.t1 = 0.0
        self.spec = None
        self.log = []
        self.loggers = []
        self.scribbled = False
        self.fired = []
        self.modes = []
        self.dead = False
        self.env0 = self.env1 = None

    @property
    def ok(self):
        return self.exc is None


class Objective:
    """The objective service as one client sees it."""

    def __init__(self, world, client):
        self.w = world
        self.c = client
        self.p = make(client.spec['problem'])
        self.buf = None
        self.kept = []
        self.given = []

    def clean(self, x):
        """the un-faulted reply at x"""
        return self.p.value(x)

    def _rep(self, out):
        rep = self.c.spec.get('rep')
        if not rep or not isinstance(out, tuple):
            return out
        out = tuple(represent(o, rep.get('_reply')) for o in out)
        if isinstance(out[0], float):
            out = (represent_scalar(out[0], rep.get('_f')),) + out[1:]
        return out

    def __call__(self, x, **kw):
        w, c = self.w, self.c
        run = c.run
        e = Eval()
        e.k = len(run.evals)
        e.x = np.array(x, dtype=float, copy=True)
        e.xref = x
        e.snap = snapshot(c.opt)
        e.env = w.env_probe() if w.env_probe is not None else None
        e.faults = []
        e.t0 = w.clock.mono
        e.f = e.g = e.H = e.res = e.sres = None
        e.ok = False
        run.evals.append(e)
        if kw != c.spec.get('funargs', {}):
            c.notes.append(('funargs', e.k, repr(kw)))
        if w.at_eval is not None:
            w.at_eval(c, run, e)
        w.set_budget(c.line_budget)
        if len(run.evals) > c.eval_cap:
            w.event('evalcap', c.cid)
            raise SimHang()
        if w.sched is not None:
            w.sched.point('objective', e.k, weight=3)
        lat = run.spec.get('latency')
        if lat:
            w.clock.advance(lat[e.k % len(lat)])
        fs = [
            f
            for f in run.spec.get('faults', ())
            if f['k'] == e.k
            or (f.get('until') is not None and f['k'] <= e.k <= f['until'])
        ]
        for f in fs:
            self._pre(f, e)
        rnd = c.spec.get('round')
        if self.p.resfun and c.spec.get('resfun'):
            res, sres = self.p.residuals(e.x)
            res, sres = rounded(res, rnd), rounded(sres, rnd)
            out = self._faulted_res(res, sres, fs, e)
        else:
            f, g, h = self.p.value(e.x)
            f = float(rounded(f, rnd))
            g, h = rounded(g, rnd), rounded(h, rnd)
            out = self._faulted(f, g, h, fs, e)
        out = self._rep(out)
        e.t1 = w.clock.mono
        mode = c.spec.get('alias') or ''
        if 'scribble' in mode:
            w.faults['objective_scribbles_x'] += 1
            x[...] = 7.5
        elif 'keep' in mode:
            w.faults['objective_keeps_x'] += 1
            self.kept.append((x, e.x))
        if 'reuse' in mode and isinstance(out, tuple):
            out = self._reuse(out)
        elif 'watch' in mode and isinstance(out, tuple):
            for o in out:
                if isinstance(o, np.ndarray):
                    self.given.append((e.k, o, o.copy()))
                    w.probes['returned_arrays_watched'] += 1
        w.event('eval', c.cid, e.k, hexf(e.x), [f['kind'] for f in fs])
        if w.sched is not None:
            w.sched.point('objective_ret', e.k, weight=3)
        return out

    def _reuse(self, out):
        w = self.w
        if self.buf is None or len(self.buf) != len(out):
            self.buf = [None] * len(out)
        ret = []
        for i, o in enumerate(out):
            b = self.buf[i]
            if isinstance(o, np.ndarray):
                if (
                    isinstance(b, np.ndarray)
                    and b.shape == o.shape
                    and b.dtype == o.dtype
                    and b.flags.writeable
                ):
                    b[...] = o
                    w.faults['objective_reuses_buffer'] += 1
                else:
                    b = o.copy()
                self.buf[i] = b
                ret.append(b)
            else:
                ret.append(o)
        return tuple(ret)

    def _pre(self, f, e):
        w, kind = self.w, f['kind']
        if kind == 'slow':
            w.clock.advance(f['dt'])
            e.faults.append(kind)
            w.faults['slow_objective'] += 1
        elif kind == 'wall':
            w.clock.step_wall(f['dt'])
            e.faults.append(kind)
            w.faults[
                'wall_clock_forward' if f['dt'] > 0 else 'wall_clock_back'
            ] += 1
        elif kind in ABORTS:
            e.faults.append(kind)
            w.faults['objective_raises_' + ABORTS[kind].__name__] += 1
            exc = ABORTS[kind](f'backend failure at {e.k}')
            self.c.run.raised = exc
            w.event('raise', self.c.cid, e.k, kind)
            raise exc
        elif kind == 'fsgone':
            e.faults.append(kind)
            self.c.fs_away(f['how'])
        elif kind == 'kill':
            # the process is gone: nothing that follows reaches the disk
            e.faults.append(kind)
            w.faults['process_killed'] += 1
            if w.disk is not None:
                w.disk.crash()
            w.event('kill', self.c.cid, e.k)
            w.killed = True
            raise SimKill()
        elif kind == 'mutate':
            e.faults.append(kind)
            self.c.mutate_inputs(f, e)
        elif kind == 'nested':
            e.faults.append(kind)
            w.faults['nested_optimizer'] += 1
            self.c.nested(f)

    def _faulted(self, f, g, h, fs, e):
        g = np.array(g, dtype=float)
        h = np.array(h, dtype=float)
        n = len(g)
        bad = None
        for ft in fs:
            k = ft['kind']
            j = int(ft.get('j', 0)) % n
            val = {
                'nan': np.nan,
                'inf': np.inf,
                'ninf': -np.inf,
            }.get(ft.get('val', 'nan'))
            if k == 'f_bad':
                f = val
                gm = ft.get('gmode', 'nan')
                if gm == 'nan':
                    g = np.full(n, np.nan)
                    h = np.full((n, n), np.nan)
                elif gm == 'zero':
                    g = np.zeros(n)
                    h = np.zeros((n, n))
            elif k == 'g_bad':
                g[j] = val
            elif k == 'h_bad':
                if self.c.nargout < 3:
                    continue
                h[j, int(ft.get('i', j)) % n] = val
            elif k == 'f_bump':
                f = f + float(ft['dv'])
            elif k == 'f_huge':
                f = float(ft['dv'])
            elif k == 'g_zero':
                g = np.zeros(n)
            elif k == 'malformed':
                bad = ft['how']
            else:
                continue
            e.faults.append(k if k != 'malformed' else 'malformed_' + bad)
            self.w.faults['reply_' + e.faults[-1]] += 1
        out = (f, g, h) if self.c.nargout == 3 else (f, g)
        e.f, e.g = float(f), g.copy()
        e.H = h.copy() if self.c.nargout == 3 else None
        if bad:
            out = self._malform(out, bad)
        else:
            e.ok = True
        return out

    def _malform(self, out, how):
        lst = list(out)
        if how == 'short':
            return tuple(lst[:-1])
        if how == 'long':
            return tuple(lst) + (0.0,)
        if how == 'list':
            return lst
        if how == 'none':
            return None
        if how == 'fvec':
            lst[0] = np.array([lst[0]] * 2)
        elif how == 'f2d':
            lst[0] = np.ones((1, 1)) * lst[0]
        elif how == 'gshort':
            lst[1] = lst[1][:-1]
        elif how == 'glong':
            lst[1] = np.append(lst[1], 0.0)
        elif how == 'gcol':
            lst[1] = lst[1][:, None]
        elif how == 'grow':
            lst[1] = lst[1][None, :]
        elif how == 'gscalar':
            lst[1] = float(lst[1][0])
        elif how == 'hsmall' and len(lst) > 2:
            lst[2] = lst[2][:1, :1] if len(lst[1]) > 1 else lst[2][:0, :0]
        elif how == 'hrow' and len(lst) > 2:
            lst[2] = lst[2][0]
        elif how == 'hscalar' and len(lst) > 2:
            lst[2] = float(lst[2][0, 0])
        elif how == 'hnonsq' and len(lst) > 2:
            lst[2] = np.vstack([lst[2], lst[2][:1]])
        elif how.startswith('h'):
            lst[1] = np.append(lst[1], 0.0)
        return tuple(lst)

    def _faulted_res(self, res, sres, fs, e):
        res = np.array(res, dtype=float)
        sres = np.array(sres, dtype=float)
        bad = None
        for ft in fs:
            k = ft['kind']
            val = {
                'nan': np.nan,
                'inf': np.inf,
                'ninf': -np.inf,
            }.get(ft.get('val', 'nan'))
            if k == 'f_bad':
                res[int(ft.get('j', 0)) % len(res)] = val
                gm = ft.get('gmode', 'nan')
                if gm == 'nan':
                    sres[:] = np.nan
                elif gm == 'zero':
                    sres[:] = 0.0
            elif k in ('g_bad', 'h_bad'):
                sres[
                    int(ft.get('i', 0)) % sres.shape[0],
                    int(ft.get('j', 0)) % sres.shape[1],
                ] = val
            elif k in ('f_bump', 'f_huge'):
                res[0] = res[0] + float(ft['dv'])
            elif k == 'g_zero':
                sres[:] = 0.0
            elif k == 'malformed':
                bad = ft['how']
            else:
                continue
            e.faults.append(k if k != 'malformed' else 'malformed_' + bad)
            self.w.faults['reply_' + e.faults[-1]] += 1
        with np.errstate(all='ignore'):
            e.f = float(0.5 * res.T.dot(res))
            e.g = res.T.dot(sres)
            e.H = sres.T.dot(sres)
        e.res, e.sres = res.copy(), sres.copy()
        out = (res, sres)
        if bad:
            if bad in ('short', 'hrow', 'hscalar'):
                out = (res,)
            elif bad in ('long', 'hnonsq'):
                out = (res, sres, 0.0)
            elif bad == 'list':
                out = [res, sres]
            elif bad == 'none':
                out = None
            elif bad in ('gshort', 'hsmall'):
                out = (res, sres[:, :-1])
            elif bad in ('glong', 'gscalar'):
                out = (res, np.hstack([sres, sres[:, :1]]))
            else:
                out = (res, sres[:-1])
        else:
            e.ok = True
        return out


class Client:
    """one optimizer object and the runs made with it"""

    def __init__(self, world, cid, spec):
        self.w = world
        self.cid = cid
        self.spec = spec
        self.runs = []
        self.run = None
        self.opt = None
        self.notes = []
        self.nargout = 3
        self.line_budget = int(spec.get('line_budget', 400000))
        self.eval_cap = int(spec.get('eval_cap', 2000))
        self.inputs = []
        self.construct_exc = None
        self.nest_depth = 0
        self.subs = []

    # -- construction ------------------------------------------------------
    def build_hess(self):
        import fides

        h = self.spec.get('hess')
        if h is None:
            return None
        if self.spec.get('plain_hess'):
            # nothing recorded: pickles refer to classes by their names
            args = dict(h.get('args', {}))
            if args.get('happ') is not None:
                inner = args['happ']
                args['happ'] = getattr(fides, inner['cls'])(
                    **inner.get('args', {})
                )
            return getattr(fides, h['cls'])(**args)
        args = dict(h.get('args', {}))
        if 'happ' in args and args['happ'] is not None:
            inner = args['happ']
            args['happ'] = spy_class(getattr(fides, inner['cls']), self, 1)(
                **inner.get('args', {})
            )
        return spy_class(getattr(fides, h['cls']), self, 0)(**args)

    def path(self, name):
        p = os.path.join(self.w.tmp, name)
        as_path = bool(self.spec.get('hist_type'))
        if (self.spec.get('rep') or {}).get('_hist'):
            as_path = not as_path
        return pathlib.Path(p) if as_path else p

    def fs_away(self, how):
        """the history file goes away during the run: its directory is
        unmounted (nodir) or something else sits at its path (isdir)"""
        w = self.w
        h = self.spec.get('history')
        if not h or w.disk is None or w.disk.crashed or w.fs_undo:
            return
        p = os.path.join(w.tmp, h)
        if how == 'nodir':
            p = os.path.dirname(p)
            if os.path.samefile(p, w.tmp):
                return
        away = p + '-away'
        had = os.path.exists(p)
        if had:
            os.rename(p, away)
        if how == 'isdir':
            os.mkdir(p)
        w.faults['history_path_' + how] += 1
        w.event('fsgone', how)
        w.fs_undo.append((p, away, had))

    def fs_back(self):
        """put it back; returns the file a run left at the path meanwhile"""
        w = self.w
        made = None
        while w.fs_undo:
            p, away, had = w.fs_undo.pop()
            f = os.path.join(w.tmp, self.spec['history'])
            if os.path.isfile(f):
                made = f + f'-made{len(self.runs)}'
                made = os.path.join(w.tmp, os.path.basename(made))
                os.rename(f, made)
            if os.path.isdir(p):
                shutil.rmtree(p)
            if had:
                os.rename(away, p)
        return made

    def build(self, history_path=None, options=None):
        import fides

        s = self.spec
        if s.get('history'):
            history_path = self.path(s['history'])
        if s.get('hess_from') is not None:
            hu = self.w.clients[s['hess_from']].hu
        else:
            hu = self.build_hess()
        self.hu = hu
        if hu is not None and not isinstance(hu.requires_hess, bool):
            need_h = bool(hu.requires_hess)
        else:
            need_h = hu is not None and hu.requires_hess
        self.nargout = (
            3
            if hu is None or (need_h and not hu.requires_resfun)
            else 2
        )
        self.objective = Objective(self.w, self)
        lb = np.array(s['lb'], dtype=float)
        ub = np.array(s['ub'], dtype=float)
        opts = dict(s.get('options', {})) if options is None else options
        if history_path is not None:
            opts['history_file'] = history_path
        rep = s.get('rep') or {}
        lb, ub = represent(lb, rep.get('_lb')), represent(ub, rep.get('_ub'))
        if rep.get('_dflt'):
            # what is left out may also be given
            given = options_plain(opts)
            for k in rep['_dflt']:
                if k not in given:
                    opts[k] = DEFAULTS[k]
        if rep.get('_opts'):
            opts = represent_options(opts, rep['_opts'])
        if s.get('share'):
            # several clients hand over the very same objects
            sh = self.w.shared
            lb = sh.setdefault(('lb', tuple(s['lb'])), lb)
            ub = sh.setdefault(('ub', tuple(s['ub'])), ub)
            opts = sh.setdefault(('opts', repr(sorted(opts.items()))), opts)
        self.lb, self.ub = np.array(lb, float), np.array(ub, float)
        self.inputs += [('lb', lb, lb.copy()), ('ub', ub, ub.copy())]
        self.opts_in = opts
        self.opts_copy = dict(opts)
        kw = {}
        if s.get('funargs'):
            kw['funargs'] = dict(s['funargs'])
        self.opt = fides.Optimizer(
            self.objective,
            ub=ub,
            lb=lb,
            verbose=int(s.get('verbose', logging.ERROR)),
            options=opts,
            hessian_update=hu,
            resfun=bool(s.get('resfun', False)),
            **kw,
        )
        return self.opt

    def mutate_inputs(self, f, e):
        """the caller changes arrays it handed over earlier"""
        for i, (name, a, orig) in enumerate(self.inputs):
            if name in f['what'] and a.flags.writeable:
                with np.errstate(all='ignore'):
                    a[...] = a * f.get('mul', 1.0) + f.get('add', 0.0)
                self.inputs[i] = (name, a, a.copy())
                self.w.faults['caller_changes_' + name] += 1

    def nested(self, f):
        """the objective runs an inner optimization of its own"""
        if self.nest_depth:
            return
        self.nest_depth += 1
        try:
            sub = Client(self.w, self.cid + 100, f['client'])
            self.subs.append((f, sub))
            sub.build()
            sub.do_run(f['client']['runs'][0])
            self.w.probes['nested_runs'] += 1
            if sub.runs[-1].exc is None:
                self.w.probes['nested_runs_ok'] += 1
        finally:
            self.nest_depth -= 1

    # -- one minimize() ----------------------------------------------------
    def do_run(self, rspec):
        w = self.w
        r = RunRec()
        r.spec = rspec
        r.raised = None
        self.runs.append(r)
        self.run = r
        opt = self.opt
        x0 = np.array(rspec['x0'], dtype=rspec.get('x0_dtype', float))
        src = rspec.get('x0_from')
        if src and len(self.runs) > 1:
            prev = self.runs[-2].final[
                {'last': 'x', 'best': 'x_min'}[src]
            ]
            if (
                prev is not None
                and np.shape(prev) == self.lb.shape
                and np.isfinite(prev).all()
                and np.all(prev >= self.lb)
                and np.all(prev <= self.ub)
                and any(
                    e.ok and np.isfinite(e.f) for e in self.runs[-2].evals
                )
                and len(self.runs[-2].evals) > 1
            ):
                x0 = prev.copy()
                w.probes['restart_from_' + src] += 1
        if self.spec.get('share'):
            x0 = w.shared.setdefault(('x0', x0.tobytes()), x0)
        r.x0 = np.array(x0)
        rep = self.spec.get('rep') or {}
        if rep.get('_x0') in ('list', 'tuple'):
            x0 = x0.tolist()
            x0 = tuple(x0) if rep['_x0'] == 'tuple' else x0
        else:
            x0 = represent(x0, rep.get('_x0'))
            self.inputs.append(('x0', x0, x0.copy()))
        kw = {}
        if rspec.get('start_id') is not None:
            kw['start_id'] = rspec['start_id']
        h0 = rspec.get('hess0')
        if h0 is not None:
            if isinstance(h0, str):
                kw['hess0'] = h0
            else:
                h0 = represent(
                    np.array(h0, dtype=float), rep.get('_hess0')
                )
                kw['hess0'] = h0
                self.inputs.append(('hess0', h0, h0.copy()))
        if 'options' in rspec:
            # options are looked up on every use: change them between runs
            for k, v in rspec['options'].items():
                if k == 'history_file' and v is not None:
                    v = self.path(v)
                opt.options[k] = v
        if 'verbose' in rspec:
            opt.verbose = int(rspec['verbose'])
        r.verbose = int(opt.verbose)
        r.options = dict(opt.options)
        w.set_budget(self.line_budget)
        r.t0 = w.clock.mono
        ia = rspec.get('interrupt_at')
        if ia is not None:
            w.interrupt_at[w._tid()] = int(ia)
        w.event('start', self.cid, len(self.runs))
        nfired = len(w.disk.fired) if w.disk is not None else 0
        nmodes = len(w.disk.modes) if w.disk is not None else 0
        tid = w._tid()
        nerr = len(w.stderr_buf)
        w.run_stack.setdefault(tid, []).append(r)
        r.env0 = w.env_probe() if w.env_probe is not None else None
        try:
            r.result = opt.minimize(x0, **kw)
            r.ret_copy = tuple(_cp(v) for v in r.result)
        except SimAbort:
            raise
        except BaseException as e:  # noqa: B036
            r.exc = e
        finally:
            if w.budget is not None:
                w.budget[w._tid()] = 10**9
            w.interrupt_at.pop(w._tid(), None)
            w.run_stack[tid].pop()
            r.fs_gone = bool(w.fs_undo)
            r.fs_made = self.fs_back()
        r.env1 = w.env_probe() if w.env_probe is not None else None
        r.log = [s for t, s in w.stderr_buf[nerr:] if t is r]
        r.t1 = w.clock.mono
        r.final = snapshot(opt)
        if w.disk is not None:
            r.fired = w.disk.fired[nfired:]
            r.modes = w.disk.modes[nmodes:]
            r.dead = w.disk.crashed
        r.start_id = getattr(opt, 'start_id', None)
        r.logger = getattr(opt, 'logger', None)
        try:
            r.hist = {
                k: list(v) for k, v in dict(opt.history).items()
            }
        except Exception:
            r.hist = None
        ex = r.final['exitflag']
        w.event(
            'end',
            self.cid,
            len(r.evals),
            type(r.exc).__name__ if r.exc is not None else None,
            int(ex) if ex is not None else None,
            hexf(r.final['x'])
            if r.final['x'] is not None and r.evals
            else None,
            repr(r.final['fval']),
        )
        w.probes[
            'exit_'
            + (
                type(r.exc).__name__
                if r.exc is not None
                else getattr(ex, 'name', str(ex))
            )
        ] += 1
        if rspec.get('scribble_results') and r.result is not None:
            for v in r.result:
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = -3.25
                    w.faults['caller_changes_result'] += 1
            r.scribbled = True
        if w.after_run is not None:
            w.after_run(self, r)
        return r


def spy_class(cls, client, level):
    """subclass of a Hessian approximation that records its update() calls"""
    try:
        sig = inspect.signature(cls.update)
    except (TypeError, ValueError):
        sig = None

    def bound(obj, a, k):
        try:
            b = sig.bind(obj, *a, **k)
            d = dict(b.arguments)
            d.pop('self', None)
        except Exception:
            d = dict(k)
            d.update({f'arg{i}': v for i, v in enumerate(a)})
        return {kk: _cp(v) for kk, v in d.items()}

    class Spy(cls):
        _spied = 0

        def update(self, *a, **k):
            if self._spied:
                return super().update(*a, **k)
            rec = {
                'level': level,
                'cls': cls.__name__,
                'args': bound(self, a, k),
                'before': _cp(self.get_mat()),
                'eval': len(client.run.evals) - 1 if client.run else -1,
                'A0': _cp(getattr(self, 'A', None)),
            }
            self._spied = 1
            try:
                ret = super().update(*a, **k)
            finally:
                self._spied = 0
            rec['after'] = _cp(self.get_mat())
            rec['A1'] = _cp(getattr(self, 'A', None))
            rec['diff'] = _cp(self.get_diff())
            if client.run is not None:
                client.run.updates.append(rec)
            return ret

    Spy.__name__ = cls.__name__
    Spy.__qualname__ = cls.__qualname__
    return Spy
