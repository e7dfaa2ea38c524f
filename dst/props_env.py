"""Properties about the process around the runs."""

import atexit
import copy
import decimal
import functools
import gc
import io
import locale
import logging
import os
import pickle
import random
import re
import signal
import socket
import sys
import threading
import warnings
import weakref

import numpy as np

from . import gen
from .base import Prop, register
from .engine import Out
from .oracles import V, viol
from .props_pair import disk_fault
from .sim import diff_runs, eqv, hung, run_sig, simulate

APP = ('app', 'app.data', 'py.warnings')
SIGS = (signal.SIGINT, signal.SIGTERM, signal.SIGHUP)


def _logger(lg):
    return (
        lg.level,
        [id(h) for h in lg.handlers],
        [(h.level, id(h.formatter), len(h.filters)) for h in lg.handlers],
        len(lg.filters),
        lg.propagate,
        lg.disabled,
    )


def surroundings():
    """what everything in this process shares"""
    st = np.random.get_state()
    return {
        'numpy error handling': (sorted(np.geterr().items()), np.geterrcall()),
        'numpy print options': repr(np.get_printoptions()),
        'numpy random state': (st[0], st[1].tobytes(), st[2:]),
        'random state': hash(random.getstate()),
        'warning filters': list(warnings.filters),
        'warning display': id(warnings.showwarning),
        'root logger': _logger(logging.root),
        'loggers of others': [_logger(logging.getLogger(n)) for n in APP],
        'logging': (
            logging.root.manager.disable,
            logging.raiseExceptions,
            id(logging.getLoggerClass()),
            id(logging.getLogRecordFactory()),
            id(logging.lastResort),
            logging.getLevelName(logging.INFO),
        ),
        'exception hooks': (id(sys.excepthook), id(threading.excepthook)),
        'standard streams': (id(sys.stdout), id(sys.stderr)),
        'recursion limit': sys.getrecursionlimit(),
        'trace functions': (sys.gettrace(), sys.getprofile()),
        'signal handlers': [signal.getsignal(s) for s in SIGS],
        'threads': sorted(t.ident for t in threading.enumerate()),
        'environment': dict(os.environ),
        'working directory': os.getcwd(),
        'import path': list(sys.path),
        'garbage collection': (
            gc.isenabled(),
            gc.get_threshold(),
            len(gc.callbacks),
        ),
        'exit handlers': atexit._ncallbacks(),
        'switch interval': sys.getswitchinterval(),
        'timers': (signal.getitimer(signal.ITIMER_REAL),
                   socket.getdefaulttimeout()),
        'HDF5 settings': h5py_settings(),
        'decimal context': repr(decimal.getcontext()),
        'locale': locale.setlocale(locale.LC_ALL),
    }


def h5py_settings():
    import h5py

    c = h5py.get_config()
    return [
        getattr(c, k)
        for k in ('bool_names', 'complex_names', 'track_order')
    ]


def handles():
    import h5py

    return (
        int(h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_ALL)),
        len(os.listdir('/proc/self/fd')),
    )


def changed(a, b):
    return [k for k in a if a[k] != b[k]]


class Caller:
    """the settings somebody chose for their process"""

    def __init__(self, spec, place):
        self.spec = spec or {}
        self.place = place

    def __enter__(self):
        s = self.spec
        self.err = np.seterr(**s.get('np', {}))
        self.call = np.geterrcall()
        if s.get('np'):
            np.seterrcall(self.note)
        self.filters = warnings.catch_warnings()
        self.filters.__enter__()
        if s.get('warn') and s['warn'] != 'error':
            warnings.simplefilter(s['warn'])
        self.root = logging.root.level
        self.h = []
        if 'root' in s:
            logging.root.setLevel(s['root'])
            h = logging.StreamHandler(io.StringIO())
            self.h.append((logging.root, h))
        for n in s.get('app', ()):
            self.h.append(
                (logging.getLogger(n), logging.StreamHandler(io.StringIO()))
            )
        for lg, h in self.h:
            lg.addHandler(h)
        self.print = np.get_printoptions()
        if s.get('print'):
            np.set_printoptions(**s['print'])
        np.random.seed(s.get('seed', 1))
        random.seed(s.get('seed', 1))
        np.random.random(s.get('draws', 0))
        self.cwd = os.getcwd()
        os.mkdir(os.path.join(self.place, 'here'))
        os.chdir(os.path.join(self.place, 'here'))
        gc.collect()
        self.handles0 = handles()
        self.before = surroundings()
        return self

    def note(self, *a):
        pass

    def __exit__(self, *a):
        # the loggers of the runs stay registered for good
        self.loggers = [
            (lg, list(getattr(lg, 'handlers', ())))
            for lg in logging.root.manager.loggerDict.values()
        ]
        self.files = sorted(os.listdir('.')) + sorted(os.listdir('..'))
        os.chdir(self.cwd)
        for lg, h in self.h:
            lg.removeHandler(h)
        logging.root.setLevel(self.root)
        self.filters.__exit__(None, None, None)
        np.seterrcall(self.call)
        np.seterr(**self.err)
        np.set_printoptions(**self.print)


@register
class C28(Prop):
    id = 'C28'
    quick = 3000
    thorough = 60000
    needs_tmp = True
    rule = (
        '1-4 runs of one optimizer under reply faults, interrupts at any '
        'line, a broken log stream and a failing disk, in a process with '
        'settings of its own (numpy error handling up to "raise", warnings '
        'as errors, print options, random state, loggers); everything the '
        'process shares is compared around construction, at every call of '
        'the objective and after every run; at the end nothing may keep the '
        'optimizer alive'
    )
    nt_rule = 'at least two evaluations were made'

    def gen(self, r, index):
        c = gen.client(
            r,
            maxiter=12,
            nruns=int(r.integers(1, 5)),
            fault_kw={'p_abort': 0.25, 'start': 0.05},
        )
        c['verbose'] = int(gen.pick(r, [10, 20, 30, 40]))
        sc = {'clients': [c]}
        if r.random() < 0.5:
            c['history'] = 'h.h5'
            if r.random() < 0.35:
                sc['disk'] = [disk_fault(r, len(c['runs']))]
        for rs in c['runs']:
            if r.random() < 0.3:
                rs['interrupt_at'] = int(10.0 ** r.uniform(0, 4))
                if r.random() < 0.3:
                    rs['interrupt_with'] = gen.pick(r, gen.ASYNC)
            if r.random() < 0.2:
                rs['verbose'] = int(gen.pick(r, [10, 20, 30, 40, 50]))
        if r.random() < 0.1:
            sc['stderr'] = 'epipe'
            sc['stderr_after'] = int(r.integers(0, 30))
        e = {'seed': int(r.integers(1, 1000)), 'draws': int(r.integers(0, 5))}
        if r.random() < 0.6:
            e['np'] = {
                k: gen.pick(
                    r, ['ignore', 'warn', 'call', 'raise'],
                    p=[0.3, 0.3, 0.3, 0.1],
                )
                for k in ('divide', 'over', 'under', 'invalid')
            }
        if r.random() < 0.6:
            e['warn'] = gen.pick(
                r, ['ignore', 'always', 'once', 'error'],
                p=[0.3, 0.3, 0.2, 0.2],
            )
        if r.random() < 0.5:
            e['root'] = int(gen.pick(r, [10, 20, 40]))
        e['app'] = [n for n in APP if r.random() < 0.4]
        if r.random() < 0.5:
            e['print'] = {'precision': int(r.integers(2, 12))}
        sc['caller'] = e
        return sc

    def run(self, sc, tmp):
        out = Out()
        bad = []
        at = Caller(sc.get('caller'), tmp)

        def hook(w):
            # construction has happened
            at.built = surroundings()
            if at.spec.get('warn') == 'error':
                # (only now: constructors may warn, about phi for one)
                warnings.simplefilter('error')
            w.env_probe = surroundings

        w = simulate(sc, tmp, hook=hook, around=at)
        c = w.clients[0]
        out.add_world(w, w.clients)
        for k in ('np', 'warn', 'root', 'print'):
            if sc.get('caller', {}).get(k):
                v = sc['caller'][k]
                out.faults[
                    'caller_'
                    + k
                    + (
                        '_raise'
                        if (k == 'np' and 'raise' in v.values())
                        or v == 'error'
                        else ''
                    )
                ] += 1
        k = changed(at.before, at.built)
        if k:
            bad.append(viol('C28', 'construction', c, -1, -1, str(k)))
        faulty = bool(w.disk is not None and w.disk.fired)
        for ri, r in enumerate(c.runs):
            out.sig.append(run_sig(c, r))
            for e in r.evals:
                k = changed(r.env0, e.env)
                if k:
                    bad.append(
                        viol('C28', 'objective-surroundings', c, ri, e.k,
                             f'{k[0]}: {show(r.env0, e.env, k[0])}')
                    )
                    break
                out.probes['surroundings_compared'] += 1
            # (an interrupt may strike just before anything is put back)
            k = changed(r.env0, r.env1)
            if k and (r.ok or not r.spec.get('interrupt_at')):
                bad.append(
                    viol('C28', 'left-behind', c, ri, -1,
                         f'{k[0]}: {show(r.env0, r.env1, k[0])} after '
                         f'{r.exc!r}')
                )
            out.probes['surroundings_compared'] += 1
            if len(r.evals) > 1:
                out.nontrivial = True
        more = set(at.files) - {'here', sc['clients'][0].get('history')}
        if more and not faulty and all(r.ok for r in c.runs):
            bad.append(
                viol('C28', 'files-left', c, len(c.runs) - 1, -1,
                     f'{sorted(more)} left on disk')
            )
        refs = [
            (n, weakref.ref(o))
            for n, o in (
                ('optimizer', c.opt),
                ('Hessian approximation', c.hu),
                ('objective', c.objective),
            )
            if o is not None
        ]
        for r in c.runs:
            for n, o in [('points', e.xref) for e in r.evals] + [
                ('results', v) for v in r.result or ()
            ]:
                if isinstance(o, np.ndarray):
                    refs.append((n, weakref.ref(o)))
        out.viol.extend(bad[:1])
        if not bad:
            cid, last = c.cid, len(c.runs) - 1
            # the caller forgets about all of it
            c.__dict__.clear()
            w.__dict__.clear()
            del c, w, r
            e = o = None
            gc.collect()
            kept = sorted({n for n, f in refs if f() is not None})
            out.probes['lifetimes_checked'] += 1
            now = handles()
            what = None
            if kept:
                what = ('kept-alive', f'{", ".join(kept)} kept alive')
            elif not faulty and now != at.handles0:
                what = (
                    'left-open',
                    f'{now} instead of {at.handles0} HDF5 objects and '
                    f'file descriptors are open',
                )
            if what:
                out.viol.append(
                    V(prop='C28', kind=what[0], client=cid, run=last,
                      eval=-1, detail=what[1])
                )
        return out


def show(a, b, k):
    a, b = (
        re.sub(r'0x[0-9a-f]+|\b\d{7,}\b', '<id>', repr(v[k])) for v in (a, b)
    )
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
    i = max(0, i - 20)
    return f'{b[i:i + 80]} instead of {a[i:i + 80]}'


# -- copies ------------------------------------------------------------------


class Standin:
    """an objective for a copy that somebody tries out"""

    def __init__(self, nargout, resfun, n):
        self.nargout = nargout
        self.resfun = resfun
        self.c = np.linspace(-0.7, 1.3, n)
        self.a = np.diag(np.linspace(0.5, 3.0, n))
        self.a[0, -1] += 0.25
        self.a[-1, 0] += 0.25

    def __call__(self, x, **kw):
        d = x - self.c
        if self.resfun:
            return np.hstack((self.a @ d, 0.1 * d**2)), np.vstack(
                (self.a, np.diag(0.2 * d))
            )
        h = self.a + np.diag(0.3 * d**2)
        r = (
            0.5 * d @ self.a @ d + 0.025 * np.sum(d**4),
            self.a @ d + 0.1 * d**3,
            h,
        )
        return r[: self.nargout]


def duplicate(o, how, keep):
    """a copy of an optimizer or Hessian approximation; `keep` maps objects
    that are to be passed on as (or replaced by) other ones"""
    if how == 'deepcopy':
        try:
            return copy.deepcopy(o, {id(a): b for a, b in keep})
        except Exception as e:
            raise CopyFailed(f'{how} of {type(o).__name__}: {e!r}') from e
    buf = io.BytesIO()

    class Pickler(pickle.Pickler):
        def persistent_id(self, obj):
            return next(
                (i for i, (a, _) in enumerate(keep) if obj is a), None
            )

    class Unpickler(pickle.Unpickler):
        def persistent_load(self, pid):
            return keep[pid][1]

    try:
        Pickler(buf, protocol=int(how[6:])).dump(o)
        buf.seek(0)
        return Unpickler(buf).load()
    except Exception as e:
        raise CopyFailed(f'{how} of {type(o).__name__}: {e!r}') from e


class CopyFailed(BaseException):
    """(not to be handled by the package)"""


STATE = (
    'x', 'fval', 'grad', 'hess', 'x_min', 'fval_min', 'grad_min', 'delta',
    'delta_iter', 'tr_ratio', 'iteration', 'exitflag', 'converged',
    'starttime', 'start_id', 'lb', 'ub', 'verbose', 'options',
    'iterations_since_tr_update', 'n_intermediate_tr_radius',
)  # fmt: skip


def differs(a, b):
    """first attribute in which a copy is not like its original"""
    for k in STATE:
        if hasattr(a, k) and not eqv(getattr(a, k), getattr(b, k, None)):
            return f'{k} is {getattr(b, k, None)!r}, not {getattr(a, k)!r}'
    h, g = getattr(a, 'history', None), getattr(b, 'history', None)
    if h is not None:
        if g is None or sorted(h) != sorted(g):
            return 'the statistics are not those of the original'
        for k in h:
            if not eqv(h[k], g[k]):
                return f'statistic {k} is {g[k]!r}, not {h[k]!r}'
    h, g = a.hessian_update, b.hessian_update
    if (h is None) != (g is None):
        return f'the Hessian approximation is {g!r}, not {h!r}'
    if h is not None:
        try:
            m, d = h.get_mat(), h.get_diff()
        except AttributeError:
            return None
        if not eqv(m, g.get_mat()) or not eqv(d, g.get_diff()):
            return 'the Hessian approximation is not that of the original'
    return None


class Shadows:
    """copies of Hessian approximations made during a run, which are given
    the updates that their originals still get in that run"""

    def __init__(self):
        self.all = []
        self.orig = []
        self.depth = 0
        self.bad = None
        self.compared = 0

    def install(self):
        import fides.hessian_approximation as m

        self.orig = [
            (k, k.__dict__['update'])
            for k in vars(m).values()
            if isinstance(k, type) and callable(k.__dict__.get('update'))
        ]
        for k, f in self.orig:
            k.update = self.wrap(f)

    def remove(self):
        for k, f in self.orig:
            k.update = f

    def wrap(self, f):
        @functools.wraps(f)
        def update(h, *args, **kw):
            mine = [s for s in self.all if s['of'] is h]
            if self.depth or not mine:
                return f(h, *args, **kw)
            given = copy.deepcopy((args, kw))
            self.depth += 1
            try:
                ret = f(h, *args, **kw)
                mat = np.array(h.get_mat())
            except BaseException:
                for s in mine:
                    s['of'] = None
                raise
            finally:
                self.depth -= 1
            for s in mine:
                s['calls'].append((given, mat))
            return ret

        return update

    def add(self, of, dup, run, k):
        self.all.append({'of': of, 'dup': dup, 'run': run, 'eval': k,
                         'calls': []})

    def settle(self):
        """the run is over"""
        todo, self.all = self.all, []
        for s in todo:
            for i, ((args, kw), mat) in enumerate(s['calls']):
                try:
                    s['dup'].update(*args, **kw)
                    m = s['dup'].get_mat()
                except Exception as e:
                    m = repr(e)
                ok = np.isfinite(mat)
                self.compared += 1
                if (
                    np.shape(m) != mat.shape
                    or (np.isfinite(m) != ok).any()
                    or (
                        ok.any()
                        and np.max(np.abs(m[ok] - mat[ok]))
                        > 1e-6 * np.max(np.abs(mat[ok]))
                    )
                ):
                    self.bad = self.bad or (
                        s['run'], s['eval'],
                        f'a copy of the approximation becomes {m!r} with '
                        f'update {i + 1} after it was made, the original '
                        f'became {mat!r}',
                    )
                    break


@register
class C29(Prop):
    id = 'C29'
    quick = 3000
    thorough = 60000
    needs_tmp = True
    rule = (
        '1-4 runs of one optimizer under reply faults and '
        'latency, repeated in a second world where the optimizer (or its '
        'Hessian approximation) is deep-copied or pickled before the first '
        'run, between runs or inside a call of the objective, and either the '
        'copy takes over, or the copy is altered and used for something else '
        'while the original goes on; compared bit by bit'
    )
    nt_rule = 'a copy was made, and a run with two evaluations followed it'

    def gen(self, r, index):
        c = gen.client(
            r,
            maxiter=15,
            nruns=int(r.integers(1, 4)),
            fault_kw={'p_abort': 0.15, 'start': 0.05},
        )
        c['plain_hess'] = True
        c['verbose'] = int(gen.pick(r, [10, 20, 40], p=[0.1, 0.1, 0.8]))
        sc = {'clients': [c]}
        hybrid = (c.get('hess') or {}).get('cls', '').startswith('Hybrid')
        if hybrid and r.random() < 0.6:
            # long enough for a switch
            c['options'].update(
                maxiter=int(r.integers(12, 46)), fatol=0.0, frtol=0.0,
                xtol=0.0,
            )
        if r.random() < 0.4:
            c['history'] = 'h.h5'
        if r.random() < 0.3:
            for rs in c['runs']:
                rs['latency'] = [
                    float(v) for v in 10.0 ** r.uniform(-3, 0.5, size=5)
                ]
            if r.random() < 0.6:
                c['options']['maxtime'] = float(10.0 ** r.uniform(-1, 1))
        sc['copies'] = [
            self.gen_copy(r, len(c['runs']), hybrid)
            for _ in range(int(gen.pick(r, [1, 2, 3], p=[0.5, 0.35, 0.15])))
        ]
        return sc

    def gen_copy(self, r, n, hybrid):
        d = {
            'how': gen.pick(
                r,
                ['deepcopy'] + [f'pickle{i}' for i in range(2, 6)],
                p=[0.4, 0.15, 0.15, 0.15, 0.15],
            ),
            'run': int(r.integers(0, n)),
            'on': gen.pick(r, ['copy', 'original']),
        }
        if r.random() < 0.4 + 0.3 * hybrid:
            d['eval'] = int(10 ** r.uniform(0, 1.3 + 0.3 * hybrid)) - 1
        elif r.random() < 0.25:
            d['what'] = 'hess'
        return d

    def run(self, sc, tmp):
        out = Out()
        base = {k: v for k, v in sc.items() if k != 'copies'}
        ta, tb = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
        os.mkdir(ta)
        os.mkdir(tb)
        wa = simulate(base, ta)
        ca = wa.clients[0]
        out.add_world(wa, wa.clients)
        for r in ca.runs:
            out.sig.append(run_sig(ca, r))
        bad = []
        made = []

        def make(w, c, d, inside):
            import fides

            ri = d['run']
            on = d['on']
            obj = c.objective
            other = Standin(
                c.nargout, bool(c.spec.get('resfun')), len(c.spec['lb'])
            )
            o = c.opt
            if d.get('what') == 'hess':
                if c.hu is None:
                    return
                if on == 'original':
                    hu2 = duplicate(c.hu, d['how'], [(obj, other)])
                    self.use(fides.Optimizer(
                        other, ub=o.ub.copy(), lb=o.lb.copy(), verbose=40,
                        hessian_update=hu2, options={'maxiter': 4},
                        resfun=other.resfun,
                    ), w, c)
                else:
                    hu2 = duplicate(c.hu, d['how'], [(obj, obj)])
                    c.opt = fides.Optimizer(
                        obj, ub=o.ub.copy(), lb=o.lb.copy(),
                        verbose=o.verbose, hessian_update=hu2,
                        options=dict(o.options), resfun=other.resfun,
                        funargs=dict(c.spec.get('funargs', {})),
                    )
                    c.hu = hu2
            else:
                to = other if on == 'original' else obj
                o2 = duplicate(o, d['how'], [(obj, to)])
                t = differs(o, o2)
                if t:
                    bad.append((ri, d.get('eval', -1), f'the copy: {t}'))
                if on == 'original':
                    self.use(o2, w, c)
                elif inside:
                    c.next_opt = o2
                else:
                    c.opt = o2
                    c.hu = o2.hessian_update
            if inside and d['eval'] > 0 and c.hu is not None:
                shadows.add(
                    c.hu, duplicate(c.hu, d['how'], [(obj, obj)]), ri,
                    d['eval'],
                )
            made.append(ri + (on == 'copy' and inside))
            out.faults[
                f'{"pickled" if d["how"] != "deepcopy" else "deepcopied"}_'
                + ('inside' if inside else 'between')
            ] += 1

        def between(w, c, ri):
            if getattr(c, 'next_opt', None) is not None:
                c.opt, c.next_opt = c.next_opt, None
                c.hu = c.opt.hessian_update
            for d in sc['copies']:
                if 'eval' not in d and d['run'] == ri:
                    make(w, c, d, False)

        def hook(w):
            def after_run(c, r):
                shadows.settle()
                if len(c.runs) < len(c.spec['runs']):
                    between(w, c, len(c.runs))

            def at_eval(c, run, e):
                for d in sc['copies']:
                    if d.get('eval') == e.k and d['run'] == len(c.runs) - 1:
                        make(w, c, d, True)

            w.after_run = after_run
            w.at_eval = at_eval
            shadows.install()  # (after the module state was put back)
            between(w, w.clients[0], 0)

        shadows = Shadows()
        try:
            wb = simulate(base, tb, hook=hook)
        except CopyFailed as e:
            out.viol.append(viol('C29', 'no-copy', ca, -1, -1, str(e)))
            return out
        finally:
            shadows.remove()
        cb = wb.clients[0]
        out.add_world(wb, wb.clients)
        out.probes['updates_of_copies'] += shadows.compared
        if shadows.bad:
            bad.append(shadows.bad)
        for ri, k, t in bad[:1]:
            out.viol.append(viol('C29', 'copy-differs', cb, ri, k, t))
            return out
        for ri, (a, b) in enumerate(zip(ca.runs, cb.runs)):
            if hung(a) or hung(b):
                break
            d = diff_runs(a, b)
            if d:
                out.viol.append(
                    viol('C29', 'copy-matters', cb, ri, -1,
                         f'{sc["copies"]}: {d}')
                )
                return out
            out.probes['runs_compared'] += 1
            if made and ri >= min(made) and len(a.evals) > 1:
                out.nontrivial = True
        return out

    def use(self, o, w, c):
        """somebody alters the copy and tries it out"""
        o.lb[...] = np.where(np.isfinite(o.lb), o.lb - 1.0, o.lb)
        o.ub[...] = np.where(np.isfinite(o.ub), o.ub + 2.0, o.ub)
        o.options.clear()
        o.options['maxiter'] = 4
        o.options['delta_init'] = 0.7
        o.verbose = 40
        x = np.clip(np.zeros(o.lb.shape) + 0.5, o.lb, o.ub)
        w.set_budget(c.line_budget)
        try:
            o.minimize(x)
        except Exception:
            w.probes['copies_failed'] += 1
        for a in (o.x, o.grad, o.hess):
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = 1e3
        w.set_budget(c.line_budget)
        w.probes['copies_used'] += 1
