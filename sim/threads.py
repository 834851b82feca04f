"""Deterministic Python threads.

Real threads, but only the one holding the baton runs.  The baton is handed over only at
switch points (callbacks from awkward into the simulated surroundings, and, if asked for,
every n-th Python line executed inside the awkward package), and the plan's schedule says
to whom.  Locks that awkward's own modules create are replaced by cooperative ones, so a
thread waiting for a lock is simply not runnable; if no thread is runnable the run is a
deadlock."""
import sys
import threading
import traceback

from sim import core

_RealLock = threading.Lock
_RealRLock = threading.RLock
_active = [None]


class SimLock(object):
    """Cooperative lock; outside of a simulation it is an ordinary lock."""

    def __init__(self, reentrant=False):
        self.real = _RealRLock() if reentrant else _RealLock()
        self.reentrant = reentrant
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = _active[0]
        me = s.current() if s is not None else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        s.point("lock")
        while self.owner is not None:
            if not blocking:
                return False
            s.block(me, self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        s = _active[0]
        me = s.current() if s is not None else None
        if me is None:
            return self.real.release()
        if self.owner != me:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s.unblock(self)
            s.point("unlock")

    def locked(self):
        return self.owner is not None or (hasattr(self.real, "locked") and self.real.locked())

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


def _factory(reentrant):
    real = _RealRLock if reentrant else _RealLock

    def make():
        if sys._getframe(1).f_globals.get("__name__", "").startswith("awkward"):
            return SimLock(reentrant)
        return real()
    return make


def install():
    """Before awkward is imported: its own locks become cooperative."""
    threading.Lock = _factory(False)
    threading.RLock = _factory(True)


class Aborted(BaseException):
    pass


class Sim(object):
    def __init__(self, log, sched, trace=0, limit=200000):
        self.log, self.sched, self.i = log, list(sched), 0
        self.trace, self.tick = trace, 0
        self.cur = None
        self.points = 0
        self.limit = limit
        self.switches = 0
        self.blocked = {}
        self.failed = None
        self.ids = {}

    def current(self):
        return self.ids.get(threading.get_ident())

    # -- called by the running thread
    def point(self, what=""):
        me = self.current()
        if me is None or self.failed is not None:
            if self.failed is not None and me is not None:
                raise Aborted()
            return
        self.points += 1
        if self.points > self.limit:
            self.fail(core.Violation("no-progress", "more than %d switch points" % self.limit))
            raise Aborted()
        d = self.sched[self.i] if self.i < len(self.sched) else 0
        self.i += 1
        if d == 0:
            return
        run = [t for t in self.alive if t not in self.blocked and t != me]
        if not run:
            return
        self.hand(me, run[(d - 1) % len(run)], what)

    def hand(self, me, to, what):
        self.switches += 1
        self.log.ev("switch", me, to, what)
        self.cur = to
        self.sem[to].release()
        self.sem[me].acquire()
        if self.failed is not None:
            raise Aborted()

    def block(self, me, lock):
        self.blocked[me] = lock
        self.log.probe("lock_wait")
        run = [t for t in self.alive if t not in self.blocked]
        if not run:
            self.fail(core.Violation("deadlock", "threads %s all wait for locks" % sorted(self.blocked)))
            raise Aborted()
        d = self.sched[self.i] if self.i < len(self.sched) else 0
        self.i += 1
        self.hand(me, run[d % len(run)], "block")

    def unblock(self, lock):
        for t in [t for t, l in self.blocked.items() if l is lock]:
            del self.blocked[t]

    def fail(self, v):
        if self.failed is None:
            self.failed = v

    def _tracer(self, frame, event, arg):
        name = frame.f_globals.get("__name__", "")
        if not name.startswith("awkward"):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.tick += 1
            if self.tick % self.trace == 0:
                self.point("line")
        return self._line

    def run(self, bodies):
        n = len(bodies)
        self.alive = list(range(n))
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        done = threading.Semaphore(0)
        out = [None] * n

        def main(k):
            self.ids[threading.get_ident()] = k
            self.sem[k].acquire()
            if self.trace:
                sys.settrace(self._tracer)
            try:
                if self.failed is None:
                    out[k] = bodies[k]()
            except Aborted:
                pass
            except core.Violation as v:
                self.fail(v)
            except BaseException as ex:
                self.fail(core.Violation("unexpected-exception", "thread %d: %s: %s\n%s" % (k, type(ex).__name__, ex, traceback.format_exc()[-1500:])))
            finally:
                sys.settrace(None)
            self.alive.remove(k)
            self.log.ev("end", k)
            if self.failed is not None:
                for t in self.alive:
                    self.blocked.pop(t, None)
            run = [t for t in self.alive if t not in self.blocked]
            if self.alive and not run:
                self.fail(core.Violation("deadlock", "threads %s wait for locks held by a finished thread" % sorted(self.blocked)))
                self.blocked.clear()
                run = list(self.alive)
            if run:
                d = self.sched[self.i] if self.i < len(self.sched) else 0
                self.i += 1
                self.cur = run[d % len(run)]
                self.sem[self.cur].release()
            else:
                done.release()
        _active[0] = self
        ts = [threading.Thread(target=main, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        self.cur = 0
        self.sem[0].release()
        done.acquire()
        for t in ts:
            t.join()
        _active[0] = None
        self.log.probe("switches", self.switches)
        self.log.probe("switch_points", self.points)
        if self.failed is not None:
            raise self.failed
        return out
