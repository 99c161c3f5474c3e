"""Seeded cooperative thread scheduler.

Simulated threads are real Python threads of which exactly one runs at a time.
A running thread reaches a yield point at every traced source line of the code
under test, every file-system operation, lock operation and sleep; there the
scheduler may hand the token to another thread.  Its decisions come from a
seeded generator, or from an explicit list of (step, thread) switches when a
recorded schedule is replayed.
"""
import importlib
import random
import sys
import _thread
import threading

from .vfs import HarnessError, SimCrash

_real_alloc = _thread.allocate_lock

_module_locks = importlib._bootstrap._module_locks


def importing(ident):
    """True in a module import: no switch there, the import locks of Python are
    real ones, and they are shared by the simulated processes."""
    for r in list(_module_locks.values()):
        k = r()
        if k is not None and k.owner == ident:
            return True
    return False



class Deadlock(Exception):
    pass


class SimThread:
    def __init__(self, sched, name, proc, fn):
        self.sched, self.name, self.proc, self.fn = sched, name, proc, fn
        self.cur = proc         # simulated process it is in (a child while it runs one)
        self.gate = _real_alloc()
        self.gate.acquire()
        self.done = False
        self.blocked = None     # None or a callable returning True when runnable
        self.result = None
        self.ident = None
        self.idx = None


class SimLock:
    """Cooperative replacement for threading.Lock inside the simulation."""
    _reentrant = False

    def __init__(self, world):
        self.w = world
        self.owner = None
        self.count = 0

    def _me(self):
        s = self.w.sched
        return s.current if s is not None and s.current is not None and not s.foreign_thread() else "harness"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._reentrant and self.owner is me:
            self.count += 1
            return True
        if me == "harness":
            if self.owner is not None:
                raise HarnessError("harness would block on a simulated lock")
            self.owner, self.count = me, 1
            return True
        s = self.w.sched
        s.yield_point("lock")
        if self.owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                self.w.tick(timeout)
                s.yield_point("lock")
                if self.owner is not None:
                    return False
            else:
                s.block_until(lambda: self.owner is None)
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0
        s = self.w.sched
        if s is not None and s.current is not None and not s.foreign_thread():
            s.yield_point("lock")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self.owner is self._me()

    def _release_save(self):
        st = (self.count, self.owner)
        self.count, self.owner = 0, None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count, self.owner = st


class Scheduler:
    """plan: {'seed':..., 'p': preemption probability at line points,
              'p_io': at io points, 'schedule': optional [[step, idx], ...]}"""

    def __init__(self, world, plan, trace_prefixes=()):
        self.w = world
        self.plan = plan
        self.rng = random.Random("sched/%s" % plan.get("seed", 0))
        self.p = plan.get("p", 0.01)
        self.p_io = plan.get("p_io", 0.5)
        self.threads = []
        self.current = None
        self.step = 0
        self.switches = []
        self.explicit = None
        if plan.get("schedule") is not None:
            self.explicit = {int(s): int(i) for s, i in plan["schedule"]}
        self.gap = self._gap()
        self.trace_prefixes = tuple(trace_prefixes)
        self.ctrl = _real_alloc()
        self.ctrl.acquire()
        self.max_steps = plan.get("max_steps", 5_000_000)
        self.deadlock = False
        self.err = None
        self._idents = {}
        self.npoints = {}

    def _gap(self):
        if self.p <= 0:
            return 1 << 60
        # geometric
        import math
        u = max(self.rng.random(), 1e-12)
        return 1 + int(math.log(u) / math.log(1 - min(self.p, 0.999999)))

    def foreign_thread(self):
        """True when the calling OS thread is not the one holding the token."""
        if self.current is None:
            return False
        return _thread.get_ident() != self.current.ident

    def spawn(self, name, proc, fn):
        t = SimThread(self, name, proc, fn)
        t.idx = len(self.threads)
        self.threads.append(t)
        th = threading.Thread.__new__(threading.Thread)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(self.trace_prefixes):
            return self._ltrace
        return None

    def _ltrace(self, frame, event, arg):
        if event == "line":
            self.yield_point("line")
        return self._ltrace

    def _body(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        self.current = t
        # register the thread with the threading module now: otherwise its first
        # current_thread() call depends on which thread ids the system reuses
        self.w._switch(None)
        threading._active.pop(t.ident, None)
        threading.current_thread()
        self.w._switch(t.proc)
        try:
            if self.trace_prefixes:
                sys.settrace(self._trace)
            try:
                t.result = ("ok", t.fn())
            except SimCrash as e:
                t.result = ("crash", e)
            except HarnessError as e:
                self.err = e
                t.result = ("harness", e)
            except SystemExit as e:
                t.result = ("exit", e.code)
            except BaseException as e:
                t.result = ("exc", e)
            finally:
                sys.settrace(None)
        finally:
            t.done = True
            threading._active.pop(t.ident, None)
            self._pass_on(t)

    def _runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.blocked is not None:
                if not t.blocked():
                    continue
            out.append(t)
        return out

    def _pass_on(self, t):
        """The thread t ends or blocks: choose who goes next."""
        if self.err is not None:
            self.current = None
            self.w._switch(None)
            self.ctrl.release()
            return
        run = self._runnable()
        if not run:
            if all(x.done for x in self.threads):
                self.current = None
                self.w._switch(None)
                self.ctrl.release()
                return
            self.deadlock = True
            self.current = None
            self.w._switch(None)
            self.ctrl.release()
            return
        self.step += 1
        nxt = self._choose(run, forced=True)
        nxt.blocked = None
        self._handover(nxt)

    def _choose(self, run, forced=False, kind="end"):
        if self.explicit is not None:
            i = self.explicit.get(self.step)
            if i is not None and self.threads[i] in run:
                nxt = self.threads[i]
            else:
                nxt = run[0]
        else:
            nxt = run[self.rng.randrange(len(run))]
        self.switches.append([self.step, nxt.idx])
        self.w.log("switch", self.step, nxt.idx)
        return nxt

    def _handover(self, nxt):
        self.current = nxt
        self.w._switch(nxt.cur)
        nxt.gate.release()

    def yield_point(self, kind):
        t = self.current
        if t is None or _thread.get_ident() != t.ident or importing(t.ident):
            return
        self.step += 1
        self.npoints[kind] = self.npoints.get(kind, 0) + 1
        if self.step > self.max_steps:
            if self.err is None:
                self.err = HarnessError("step budget exhausted")
            raise self.err
        if self.explicit is not None:
            i = self.explicit.get(self.step)
            if i is None or self.threads[i] is t:
                return
            nxt = self.threads[i]
            if nxt.done or (nxt.blocked is not None and not nxt.blocked()):
                return
        else:
            if kind == "line":
                self.gap -= 1
                if self.gap > 0:
                    return
                self.gap = self._gap()
            else:
                if self.rng.random() >= self.p_io:
                    return
            run = [x for x in self._runnable() if x is not t]
            if not run:
                return
            nxt = run[self.rng.randrange(len(run))]
        self.switches.append([self.step, nxt.idx])
        self.w.log("switch", self.step, nxt.idx)
        nxt.blocked = None
        t.cur = self.w._cur
        self._handover(nxt)
        t.gate.acquire()
        self._resumed(t)

    def _resumed(self, t):
        self.current = t
        self.w._switch(t.cur)
        if self.err is not None:
            raise self.err

    def block_until(self, cond):
        t = self.current
        if t is None or _thread.get_ident() != t.ident:
            if not cond():
                raise HarnessError("harness would block")
            return
        while not cond():
            t.blocked = cond
            t.cur = self.w._cur
            run = self._runnable()
            if not run:
                self.deadlock = True
                self.current = None
                self.w._switch(None)
                self.ctrl.release()
                t.gate.acquire()        # parked for ever
            self.step += 1
            nxt = self._choose(run)
            nxt.blocked = None
            if nxt is t:
                continue
            self._handover(nxt)
            t.gate.acquire()
            self._resumed(t)
        t.blocked = None

    def run(self):
        """Run all spawned threads to completion (called from the harness)."""
        if not self.threads:
            return
        assert self.w.sched is None or self.w.sched is self
        self.w.sched = self
        self.step += 1
        first = self._choose(self._runnable())
        self._handover(first)
        self.ctrl.acquire()
        self.current = None
        self.w.sched = None
        if self.err is not None:
            raise self.err
        for t in self.threads:
            if t.result is None and not self.deadlock:
                raise HarnessError("thread %s vanished" % t.name)


def patch_locks(world):
    """Locks created by the code under test become cooperative."""
    real = (threading.Lock, threading.RLock, threading._allocate_lock)

    def mk():
        return SimLock(world) if not world.in_harness() else real[0]()

    def mkr(*a):
        return SimRLock(world) if not world.in_harness() else real[1]()
    world._patch(threading, "Lock", mk)
    world._patch(threading, "RLock", mkr)
    world._patch(threading, "_allocate_lock", mk)
