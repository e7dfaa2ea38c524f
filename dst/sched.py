"""Seeded scheduler for caller threads.

Caller threads are real threads, but exactly one of them is ever released: the
others are parked on a baton.  Whenever the running thread reaches a
preemption point (every executed line -- or bytecode instruction -- of the
package under test, entry and exit of the objective, a contended lock, a write
to the log sink) the plan decides who runs next.  Every context switch that is
taken is recorded as ``[point number, thread]``; that list alone replays the
schedule and is what the shrinker minimises.
"""

import _thread
import hashlib
import threading

import numpy as np

_alloc = _thread.allocate_lock


class SimAbort(BaseException):
    """unwinds parked threads when a world is torn down early"""


class Plan:
    def pick(self, s, name, weight):
        return None


class Explicit(Plan):
    def __init__(self, d):
        self.at = {}
        for step, tid in d.get('switches', ()):
            self.at[int(step)] = int(tid)

    def pick(self, s, name, weight):
        return self.at.get(s.step)


class Rand(Plan):
    def __init__(self, d):
        self.r = np.random.RandomState(int(d['seed']) % (2**32 - 1))
        self.p = float(d['p'])

    def pick(self, s, name, weight):
        if self.r.random_sample() < self.p * weight:
            c = s.others()
            if c:
                return c[self.r.randint(len(c))]
        return None


class Focus(Plan):
    """switch often inside a few (randomly chosen) functions"""

    def __init__(self, d):
        self.seed = str(d['seed'])
        self.r = np.random.RandomState(int(d['seed']) % (2**32 - 1))
        self.p = float(d['p'])
        self.frac = float(d.get('frac', 0.2))
        self.hot = {}

    def pick(self, s, name, weight):
        h = self.hot.get(name)
        if h is None:
            x = hashlib.md5((self.seed + name).encode()).digest()[0] / 256.0
            h = self.hot[name] = x < self.frac
        p = self.p if h else self.p * 0.01
        if self.r.random_sample() < p * weight:
            c = s.others()
            if c:
                return c[self.r.randint(len(c))]
        return None


class PCT(Plan):
    """priority schedule with d change points"""

    def __init__(self, d):
        r = np.random.RandomState(int(d['seed']) % (2**32 - 1))
        self.prio = list(r.permutation(64) + 100)
        self.change = {
            int(10.0 ** r.uniform(0.5, np.log10(float(d['horizon'])))): i
            for i in range(int(d['d']))
        }

    def pick(self, s, name, weight):
        if s.step in self.change:
            self.prio[s.current] = self.change[s.step] - 50
            return self.best(s)
        if s.step == 1:
            return self.best(s)
        return None

    def best(self, s):
        c = [t for t in range(s.n) if s.runnable(t)]
        return max(c, key=lambda t: self.prio[t]) if c else None


def make_plan(d):
    return {
        'explicit': Explicit,
        'rand': Rand,
        'focus': Focus,
        'pct': PCT,
    }[d['mode']](d)


class Sched:
    def __init__(self, world, plan):
        self.w = world
        self.plan = make_plan(plan)
        self.n = 0
        self.current = 0
        self.step = 0
        self.switches = []
        self.sites = []
        self.state = []
        self.baton = []
        self.main = _alloc()
        self.abort = False
        self.deadlock = False
        self.active = False
        self.errors = {}
        self.holding = 0  # >0: inside a region that must not be preempted

    # -- who may run -------------------------------------------------------
    def runnable(self, t):
        st = self.state[t]
        if st == 'ready':
            return True
        if st == 'done':
            return False
        return not st.locked()  # waiting for a lock that is free now

    def others(self):
        return [
            t for t in range(self.n) if t != self.current and self.runnable(t)
        ]

    # -- called by the running thread --------------------------------------
    def point(self, name, lineno, weight=1):
        if not self.active or self.holding:
            return
        if _thread.get_ident() != self.idents[self.current]:
            return  # not one of the simulated threads
        self.step += 1
        t = self.plan.pick(self, name, weight)
        if t is None or t == self.current or not (0 <= t < self.n):
            return
        if not self.runnable(t):
            return
        self.sites.append((name, lineno))
        self.switches.append([self.step, t])
        self._switch(t)

    def block_on(self, lock):
        me = self.current
        self.state[me] = lock
        self.w.probes['lock_contended'] += 1
        c = self.others()
        if not c:
            self.deadlock = True
            self.state[me] = 'ready'
            self.w.event('deadlock', me)
            raise SimAbort('deadlock')
        self.sites.append(('lock', 0))
        self._switch(c[0])
        self.state[me] = 'ready'

    def _switch(self, t):
        me = self.current
        self.w.event('sw', self.step, me, t)
        self.current = t
        self.state[t] = 'ready'
        self.baton[t].release()
        self.baton[me].acquire()
        if self.abort:
            raise SimAbort()

    # -- driver --------------------------------------------------------------
    def run(self, fns):
        self.n = len(fns)
        self.state = ['ready'] * self.n
        self.baton = [_alloc() for _ in fns]
        for b in self.baton:
            b.acquire()
        self.main.acquire()
        self.idents = [None] * self.n
        ths = [
            threading.Thread(target=self._body, args=(i, f), daemon=True)
            for i, f in enumerate(fns)
        ]
        for t in ths:
            t.start()
        self.current = 0
        self.active = True
        self.baton[0].release()
        self.main.acquire()
        self.active = False
        for t in ths:
            t.join()

    def _body(self, i, f):
        self.idents[i] = _thread.get_ident()
        self.baton[i].acquire()
        np.seterr(all='ignore')
        try:
            if not self.abort:
                f()
        except BaseException as e:  # noqa: B036
            self.errors[i] = e
        finally:
            self.state[i] = 'done'
            self.w.event('done', i)
            rest = [t for t in range(self.n) if self.state[t] != 'done']
            if not rest:
                self.main.release()
            else:
                nxt = [t for t in rest if self.runnable(t)]
                if not nxt:
                    # everybody left waits for a lock nobody will release
                    self.deadlock = True
                    self.abort = True
                    nxt = rest
                pick = nxt[0]
                p = getattr(self.plan, 'best', None)
                if p is not None:
                    b = p(self)
                    pick = b if b in nxt else pick
                self.current = pick
                self.state[pick] = 'ready'
                self.baton[pick].release()
