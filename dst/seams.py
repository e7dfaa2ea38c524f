"""Seams: everything nondeterministic the code under test can reach.

``install()`` must run before ``fides`` is imported.  It replaces the clock
(``time.*``), identifier source (``uuid.*``), ``sys.stderr`` (log output),
HDF5 file opening (``h5py.File``) and lock construction by wrappers that
delegate to the simulated world that is active in this process, and to the
real thing when no simulation is running.  A ``sys.monitoring`` LINE hook that
is only live for code under /repo/fides gives the simulator a preemption /
cancellation / step-budget point at every executed source line.
"""

import os
import sys
import threading
import time
import uuid

REPO = os.environ.get('FIDES_REPO', '/repo')
PKG = os.path.join(os.path.realpath(REPO), 'fides') + os.sep

# the world that is active in this process (one at a time per process)
WORLD = None

REAL = {}
_installed = False
TOOL = 3


def activate(world):
    global WORLD
    WORLD = world


def deactivate():
    global WORLD
    WORLD = None


# --------------------------------------------------------------------------
# clock


def _clock_wrap(name, kind, scale=1):
    real = getattr(time, name)
    REAL['time.' + name] = real

    def wrapper():
        w = WORLD
        if w is None or w.clock is None:
            return real()
        v = w.clock.read(kind)
        return int(v * 1e9) if scale == 'ns' else v

    wrapper.__name__ = name
    setattr(time, name, wrapper)


def _install_clock():
    for n, kind in (
        ('time', 'wall'),
        ('monotonic', 'mono'),
        ('perf_counter', 'mono'),
        ('process_time', 'cpu'),
        ('thread_time', 'cpu'),
    ):
        _clock_wrap(n, kind)
    for n, kind in (
        ('time_ns', 'wall'),
        ('monotonic_ns', 'mono'),
        ('perf_counter_ns', 'mono'),
        ('process_time_ns', 'cpu'),
    ):
        _clock_wrap(n, kind, 'ns')
    real_sleep = time.sleep
    REAL['time.sleep'] = real_sleep

    def sleep(d):
        w = WORLD
        if w is None or w.clock is None:
            return real_sleep(d)
        w.clock.advance(d)
        return None

    time.sleep = sleep


# --------------------------------------------------------------------------
# identifiers


def _install_uuid():
    for n in ('uuid1', 'uuid4', 'uuid7'):
        if not hasattr(uuid, n):
            continue
        real = getattr(uuid, n)
        REAL['uuid.' + n] = real

        def wrapper(*a, _real=real, _n=n, **k):
            w = WORLD
            if w is None:
                return _real(*a, **k)
            return w.next_uuid(_n)

        setattr(uuid, n, wrapper)


# --------------------------------------------------------------------------
# locks: a lock made by the code under test (or by a log handler it creates)
# is a simulated lock, so that a parked thread never blocks a running one
# outside the scheduler's control.


class SimLock:
    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def _me(self):
        return REAL['get_ident']()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        w = WORLD
        if w is not None and w.sched is not None and self._owner != me:
            w.sched.point('lock', 0, weight=3)
        while True:
            if self._owner is None:
                self._owner = me
                self._count = 1
                return True
            if self._re and self._owner == me:
                self._count += 1
                return True
            if not blocking:
                return False
            w = WORLD
            if w is not None and w.sched is not None:
                if timeout is not None and timeout >= 0:
                    w.clock.advance(timeout)
                    return False
                w.sched.block_on(self)
                continue
            if self._owner not in _alive_idents():
                # owner thread of an earlier simulation died holding it
                self._owner = None
                continue
            raise RuntimeError('simulated deadlock: lock is held')

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == self._me()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _alive_idents():
    return set(threading._active)


def _install_locks():
    import logging

    REAL['Lock'] = threading.Lock
    REAL['RLock'] = threading.RLock
    REAL['get_ident'] = threading.get_ident
    logfile = logging.__file__

    def mk(real, reentrant):
        def factory(*a, **k):
            f = sys._getframe(1)
            fn = f.f_code.co_filename
            if fn == logfile or fn.startswith(PKG):
                return SimLock(reentrant)
            return real(*a, **k)

        return factory

    threading.Lock = mk(REAL['Lock'], False)
    threading.RLock = mk(REAL['RLock'], True)
    logging._lock = SimLock(True)


# --------------------------------------------------------------------------
# stderr


class _Stderr:
    """What sys.stderr is while a world is active."""

    def write(self, s):
        w = WORLD
        if w is None:
            return sys.__stderr__.write(s)
        return w.stderr_write(s)

    def flush(self):
        w = WORLD
        if w is None:
            return sys.__stderr__.flush()
        w.stderr_flush()

    def isatty(self):
        return False

    encoding = 'utf-8'
    errors = 'strict'

    def fileno(self):
        raise OSError('no fileno')


STDERR = _Stderr()


# --------------------------------------------------------------------------
# HDF5 files


def _install_h5():
    import h5py

    real = h5py.File
    REAL['h5py.File'] = real

    class _Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real)

        def __call__(cls, *a, **k):
            w = WORLD
            if w is None or w.disk is None:
                return real(*a, **k)
            return w.disk.open(real, *a, **k)

    class File(metaclass=_Meta):
        pass

    h5py.File = File


# --------------------------------------------------------------------------
# line hook


def _on_line(code, lineno):
    w = WORLD
    if not code.co_filename.startswith(PKG):
        return sys.monitoring.DISABLE
    if w is None:
        return None
    w.on_line(code, lineno)
    return None


def _on_instruction(code, offset):
    w = WORLD
    if not code.co_filename.startswith(PKG):
        return sys.monitoring.DISABLE
    if w is None:
        return None
    w.on_instruction(code, offset)
    return None


def set_granularity(instr):
    ev = sys.monitoring.events
    sys.monitoring.set_events(
        TOOL, ev.INSTRUCTION if instr else ev.LINE
    )


def install():
    """Install all seams and import the package under test."""
    global _installed
    if not _installed:
        if 'fides' in sys.modules:
            raise RuntimeError('fides imported before the seams')
        sys.dont_write_bytecode = True
        os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
        os.environ.setdefault('OMP_NUM_THREADS', '1')
        import numpy  # noqa: F401
        import scipy.optimize  # noqa: F401
        import h5py  # noqa: F401

        _install_clock()
        _install_uuid()
        _install_locks()
        _install_h5()
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'dst')
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instruction)
        mon.set_events(TOOL, mon.events.LINE)
        sys.path.insert(0, os.path.realpath(REPO))
        _installed = True
    import fides

    here = os.path.realpath(fides.__file__)
    if not here.startswith(PKG):
        raise RuntimeError(f'imported fides from {here}, expected {PKG}')
    from . import pristine

    pristine.capture()
    return fides
