"""Process pools: tasks run in simulated worker processes.

Each worker is a simulated process with its own desimeter modules; arguments
and results cross the boundary by pickling, as they do for real.  The plan
decides which worker takes which task, when, and whether it dies.
"""
import multiprocessing
import multiprocessing.pool
import pickle
import random
import traceback

from .vfs import SimCrash, HarnessError


class PoolHang(Exception):
    """The real pool would wait for ever (a worker died holding a task)."""


def install(world):
    w = world

    class Result:
        def __init__(self, pool, callback=None, error_callback=None):
            self.pool, self.callback, self.error_callback = pool, callback, error_callback
            self._ready = False
            self._ok = None
            self._val = None

        def ready(self):
            return self._ready

        def successful(self):
            if not self._ready:
                raise ValueError("not ready")
            return self._ok

        def wait(self, timeout=None):
            self.pool._drain(self)

        def get(self, timeout=None):
            self.pool._drain(self)
            if not self._ready:
                if timeout is not None:
                    raise multiprocessing.TimeoutError()
                raise PoolHang("result never arrives: the worker died")
            if self._ok:
                return self._val
            raise self._val

        def _set(self, ok, val):
            self._ready, self._ok, self._val = True, ok, val
            if ok and self.callback:
                self.callback(val)
            if not ok and self.error_callback:
                self.error_callback(val)

    class SimPool:
        def __init__(self, processes=None, initializer=None, initargs=(),
                     maxtasksperchild=None, context=None):
            plan = w.pool_plan
            self._rng = random.Random("pool/%s" % plan.get("seed", 0))
            self._parent = w.current_proc()
            n = processes or plan.get("cpu_count", 4)
            if n < 1:
                raise ValueError("Number of processes must be at least 1")
            self._n = n
            self._init = (initializer, initargs)
            self._maxt = maxtasksperchild
            self._workers = []
            for i in range(n):
                self._workers.append(None)
            self._used = [0] * n
            self._queue = []
            self._closed = False
            self._lost = 0
            self._ntask = 0
            w.probe("pools")
            w.log("pool", n)

        def _worker(self, i):
            if self._workers[i] is None:
                p = w.new_process("worker%d" % i)
                p.main_module = self._parent.main_module
                p.environ = {k: __import__("os").environ.get(k) for k in w._envkeys}
                p.argv = self._parent.argv
                self._workers[i] = p
                self._used[i] = 0
                init, a = self._init
                if init is not None:
                    with w.running(p):
                        init(*a)
            return self._workers[i]

        def _put(self, payload, res):
            if self._closed:
                raise ValueError("Pool not running")
            # pickling happens in the parent, when the task is submitted
            try:
                blob = pickle.dumps(payload)
            except Exception as e:
                # real pool: the task handler sets the exception on the result
                res._set(False, e)
                return
            self._queue.append((self._ntask, blob, res))
            self._ntask += 1
            plan = w.pool_plan
            while self._queue and self._rng.random() < plan.get("eager", 0.3):
                self._step()

        def _step(self):
            plan = w.pool_plan
            # tasks are taken in order, completion order differs: with n workers
            # any of the first n queued tasks may be the next to complete
            k = self._rng.randrange(min(len(self._queue), self._n))
            idx, blob, res = self._queue.pop(k)
            wi = self._rng.randrange(self._n)
            p = self._worker(wi)
            w.log("task", idx, wi)
            w.probe("pool_tasks")
            w.state("task-on-worker", min(self._used[wi], 6), self._n)
            die = idx in plan.get("die", ())
            p.task_idx = idx

            def body():
                fn, a, kw = pickle.loads(blob)
                if die:
                    w.count_fault("worker_killed")
                    w.kill_current("worker_killed", "task")
                return pickle.dumps(fn(*a, **kw))
            self._used[wi] += 1
            st, val = w.call(p, body)
            if st == "ok":
                res._set(True, pickle.loads(val))
            elif st == "exc":
                w.probe("task_exception")
                res._set(False, val)
            elif st == "exit":
                # SystemExit in a pool worker kills it: the result never comes
                w.probe("worker_exit")
                self._lost += 1
                p.dead = True
                self._workers[wi] = None
            else:
                self._lost += 1
                self._workers[wi] = None
            if self._maxt and self._used[wi] >= self._maxt:
                self._workers[wi] = None

        def _drain(self, res=None):
            while self._queue and not (res is not None and res._ready):
                self._step()

        # ---- API
        def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
            r = Result(self, callback, error_callback)
            self._put((func, tuple(args), dict(kwds)), r)
            return r

        def apply(self, func, args=(), kwds={}):
            return self.apply_async(func, args, kwds).get()

        def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
            rs = [self.apply_async(func, (x,)) for x in iterable]
            return MapResult(self, rs, callback, error_callback)

        def map(self, func, iterable, chunksize=None):
            return self.map_async(func, iterable, chunksize).get()

        def starmap(self, func, iterable, chunksize=None):
            return MapResult(self, [self.apply_async(func, tuple(x)) for x in iterable]).get()

        def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
            return MapResult(self, [self.apply_async(func, tuple(x)) for x in iterable],
                             callback, error_callback)

        def imap(self, func, iterable, chunksize=1):
            rs = [self.apply_async(func, (x,)) for x in iterable]
            for r in rs:
                yield r.get()

        def imap_unordered(self, func, iterable, chunksize=1):
            done = []
            rs = [self.apply_async(func, (x,)) for x in iterable]
            pend = list(rs)
            while pend:
                r = next((x for x in pend if x._ready), None)
                if r is None:
                    if not self._queue:
                        raise PoolHang("a worker died holding a task")
                    self._step()
                    continue
                pend.remove(r)
                yield r.get()

        def close(self):
            self._closed = True

        def terminate(self):
            self._closed = True
            if self._queue:
                w.log("terminate", len(self._queue))
            self._queue = []

        def join(self):
            if not self._closed:
                raise ValueError("Pool is still running")
            self._drain()
            if self._lost:
                w.probe("pool_lost_tasks", self._lost)
                raise PoolHang("join never returns: %d task(s) lost with their worker" % self._lost)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.terminate()

    class MapResult:
        def __init__(self, pool, rs, callback=None, error_callback=None):
            self.pool, self.rs = pool, rs
            self.cb, self.ecb = callback, error_callback

        def ready(self):
            return all(r._ready for r in self.rs)

        def wait(self, timeout=None):
            self.pool._drain()

        def get(self, timeout=None):
            self.pool._drain()
            for r in self.rs:
                if r._ready and not r._ok:
                    if self.ecb:
                        self.ecb(r._val)
                    raise r._val
            if not self.ready():
                raise PoolHang("map never returns: the worker died")
            out = [r._val for r in self.rs]
            if self.cb:
                self.cb(out)
            return out

    world.pool_plan = getattr(world, "pool_plan", None) or {}
    world._patch(multiprocessing, "Pool", SimPool)
    world._patch(multiprocessing.pool, "Pool", SimPool)
    world._patch(multiprocessing, "cpu_count", lambda: world.pool_plan.get("cpu_count", 4))
    ctx = multiprocessing.context.BaseContext

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)
    world._patch(ctx, "Pool", ctx_pool)

    # concurrent.futures, in case a pool is expressed that way
    import concurrent.futures
    import concurrent.futures.process as cfp

    class SimExecutor(concurrent.futures.Executor):
        def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(),
                     max_tasks_per_child=None):
            self._pool = SimPool(max_workers, initializer, initargs, max_tasks_per_child)

        def submit(self, fn, /, *a, **k):
            f = concurrent.futures.Future()
            r = self._pool.apply_async(fn, a, k)
            self._pool._drain(r)
            if not r._ready:
                f.set_exception(cfp.BrokenProcessPool("a worker died"))
            elif r._ok:
                f.set_result(r._val)
            else:
                f.set_exception(r._val)
            return f

        def shutdown(self, wait=True, *, cancel_futures=False):
            self._pool.close()
            self._pool._drain()
    world._patch(concurrent.futures, "ProcessPoolExecutor", SimExecutor)
    world._patch(cfp, "ProcessPoolExecutor", SimExecutor)
