"""Deterministic scheduler for caller threads.

Real threads, but exactly one of them runs at any time: a thread gives up control only at a
*point* - a line (or byte code instruction) of the library about to be executed, or an event of
the simulated disk - and only where the scenario says so.  The scenario holds the explicit list of
preemptions `[[point number, choice], ...]`; everything else is decided by the code under test, so
one scenario is one execution.
"""

import sys
import threading

from . import loader, world
from .world import REAL


class Stuck(Exception):
    pass


class Sched:
    def __init__(self, world, preempt, opcodes=False, limit=2_000_000):
        self.world = world
        self.preempt = [tuple(p) for p in preempt]
        self.pos = 0
        self.opcodes = opcodes
        self.points = 0
        self.switches = []
        self.limit = limit
        self.current = None
        self.sems = []
        self.alive = []
        self.done = REAL['Lock']()
        self.idents = {}
        self.errors = []

    # -- called by running threads ----------------------------------------------------------------
    def point(self):
        me = self.idents.get(threading.get_ident())
        if me is None or me != self.current:
            return
        self.points += 1
        if self.pos < len(self.preempt) and self.points >= self.preempt[self.pos][0]:
            choice = self.preempt[self.pos][1]
            self.pos += 1
            others = [i for i in self.alive if i != me]
            if others:
                self.switch(me, others[choice % len(others)])

    def switch(self, me, to):
        self.switches.append((self.points, me, to))
        self.world.log.update(f'>{to};'.encode())
        self.current = to
        self.sems[to].release()
        self.sems[me].acquire()

    def block(self):
        """The current thread cannot proceed: let somebody else run."""
        me = self.idents.get(threading.get_ident())
        others = [i for i in self.alive if i != me]
        if me is None or not others:
            raise Stuck('deadlock: the only runnable thread waits for a lock')
        self.blocked = getattr(self, 'blocked', 0) + 1
        if self.blocked > 100000:
            raise Stuck('deadlock: all threads wait for locks')
        self.switch(me, others[(others.index(min(others, key=lambda i: (i <= me, i)))) % len(others)])

    def glob(self, frame, ev, arg):
        if ev == 'call' and loader.is_library(frame.f_code.co_filename):
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.point()
            return self.local
        return None

    def local(self, frame, ev, arg):
        if ev == 'line' or ev == 'opcode':
            self.point()
        return self.local

    # -- running -----------------------------------------------------------------------------------
    def run(self, bodies):
        n = len(bodies)
        results = [None] * n
        self.sems = []
        for _ in range(n):
            s = REAL['Lock']()
            s.acquire()
            self.sems.append(s)
        self.alive = list(range(n))
        self.done.acquire()
        self.blocked = 0

        def runner(i):
            self.sems[i].acquire()
            self.idents[threading.get_ident()] = i
            sys.settrace(self.glob)
            try:
                results[i] = bodies[i]()
            except BaseException as e:      # bodies catch what the library raises
                self.errors.append((i, e))
            finally:
                sys.settrace(None)
                self.idents.pop(threading.get_ident(), None)
                self.alive.remove(i)
                if self.alive:
                    nxt = self.alive[0]
                    self.current = nxt
                    self.sems[nxt].release()
                else:
                    self.done.release()

        threads = [threading.Thread(target=runner, args=(i,), daemon=True) for i in range(n)]
        self.world.sched = self
        for t in threads:
            t.start()
        self.current = 0
        self.sems[0].release()
        self.done.acquire()
        self.world.sched = None
        for t in threads:
            t.join()
        if self.errors:
            raise self.errors[0][1]
        return results


class SimLock:
    """Lock for library code that uses any: waiting becomes a scheduling decision."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self.reentrant and self._owner == me):
            if not blocking or timeout == 0:
                return False
            w = world.CURRENT
            if w is None or w.sched is None:
                raise Stuck('deadlock: waiting for a lock nobody will release')
            w.sched.block()
        self._owner = me
        self._depth += 1
        return True

    def release(self):
        if self._depth == 0:
            raise RuntimeError('release unlocked lock')
        self._depth -= 1
        if self._depth == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True
