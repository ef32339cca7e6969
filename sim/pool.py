"""
A simulated multiprocessing pool.

Tasks wait in a queue, are pickled by a handler thread of the pool's owner
some time after they were submitted, run by worker procs that take them up
whenever the scheduler lets them, and their outcomes - pickled with the
standard library's own wrappers - become ready one by one in whatever order
the workers finish.  Follows multiprocessing.pool.Pool, whose public interface
it offers, in what raises, what waits and what closing and terminating do.
"""
import multiprocessing
import multiprocessing.pool as mpp
import pickle
from multiprocessing.reduction import ForkingPickler

from sim import shm

RUN, CLOSE, TERMINATE = "RUN", "CLOSE", "TERMINATE"


class Result:
    def __init__(self, pool, callback=None, error_callback=None):
        self.pool, self.k = pool, pool.k
        self.callback, self.error_callback = callback, error_callback
        self.done, self.good, self.value = False, None, None
        pool.open_results += 1

    def _set(self, good, value):
        if self.done:
            return
        self.good, self.value = good, value
        if good and self.callback:
            self.callback(value)
        if not good and self.error_callback:
            self.error_callback(value)
        self.done = True
        self.pool.open_results -= 1
        self.k.changed()

    def ready(self):
        self.k.point("pool.ready")
        return self.done

    def successful(self):
        if not self.ready():
            raise ValueError("{0!r} not ready".format(self))
        return self.good

    def wait(self, timeout=None):
        k = self.k
        k.point("pool.get")
        if timeout is None:
            k.wait(lambda: self.done, "pool.wait")
        else:
            end = k.clock + timeout
            while not self.done and k.clock < end:
                k.sleep(min(0.05, end - k.clock), "pool.wait")

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.done:
            raise multiprocessing.TimeoutError
        if self.good:
            return self.value
        raise self.value


class MapResult(Result):
    """of several tasks; fails with the first failure"""

    def __init__(self, pool, n, *a):
        super().__init__(pool, *a)
        self.left, self.parts, self.bad = n, {}, None
        if not n:
            self._set(True, [])

    def part(self, j):
        res = self

        class Part:
            done = False

            def _set(self, good, value):
                if good:
                    res.parts[j] = value
                elif res.bad is None:
                    res.bad = value
                res.left -= 1
                if not res.left:
                    if res.bad is not None:
                        res._set(False, res.bad)
                    else:
                        res._set(True, [res.parts[x] for x in
                                        sorted(res.parts)])
        return Part()


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        w = shm.STATE.world
        self.k = k = w.k
        if processes is None:
            processes = 4
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if not isinstance(processes, int):
            raise TypeError("number of processes must be an integer")
        k.point("pool.start", processes)
        self.state = RUN
        self.queue, self.tasks = [], []         # submitted; pickled
        self.open_results = 0
        self.sent = False                       # closing has been passed on
        self.deaf = False                       # takes no more results
        if not hasattr(w, "pools"):
            w.pools = []
        w.pools.append(self)
        self.handler = k.spawn(self._handle, daemon=True, space=k.space)
        self.workers = [k.spawn(self._worker(initializer, initargs),
                                daemon=True) for _ in range(processes)]

    # -- procs -----------------------------------------------------------------
    def _handle(self, p):
        k = self.k
        while True:
            k.wait(lambda: self.queue or self.state != RUN, "pool.idle")
            if self.state == TERMINATE:
                return
            if self.queue:
                k.point("pool.put")
                if not self.queue:
                    continue
                result, func, args, kwds = self.queue.pop(0)
                try:
                    data = bytes(ForkingPickler.dumps((func, args, kwds)))
                except Exception as ex:
                    result._set(False, ex)
                    continue
                self.tasks.append((result, data))
                k.changed()
            elif self.state == CLOSE:
                self.sent = True
                k.changed()
                return

    def _worker(self, initializer, initargs):
        def fn(p):
            k = self.k
            if initializer is not None:
                initializer(*initargs)
            while True:
                k.wait(lambda: self.tasks or self.sent or
                       self.state == TERMINATE, "pool.idle")
                if self.state == TERMINATE or not self.tasks:
                    return
                k.point("pool.take")
                if not self.tasks:
                    continue
                result, data = self.tasks.pop(0)
                try:
                    func, args, kwds = pickle.loads(data)
                    out = (True, func(*args, **kwds))
                except Exception as ex:
                    out = (False, mpp.ExceptionWithTraceback(
                        ex, ex.__traceback__))
                k.point("pool.done")
                try:
                    out = bytes(ForkingPickler.dumps(out))
                except Exception as ex:
                    out = bytes(ForkingPickler.dumps((
                        False, mpp.MaybeEncodingError(ex, out[1]))))
                if self.deaf:
                    continue
                try:
                    out = pickle.loads(out)
                except Exception:       # what ends the owner's result handler
                    k.count_fault("handler_died")
                    self.deaf = True
                    continue
                result._set(*out)
        return fn

    # -- the public interface ----------------------------------------------------
    def _check_running(self):
        if self.state != RUN:
            raise ValueError("Pool not running")

    def _submit(self, result, func, args, kwds):
        k = self.k
        f = k.point("pool.submit")
        if f is not None:
            k.count_fault("submit_fails")
            raise OSError(12, "Cannot allocate memory")
        self.queue.append((result, func, args, kwds))
        k.changed()

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        self._check_running()
        result = Result(self, callback, error_callback)
        self._submit(result, func, args, kwds)
        return result

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _map(self, func, items, callback=None, error_callback=None):
        self._check_running()
        items = list(items)
        result = MapResult(self, len(items), callback, error_callback)
        for j, args in enumerate(items):
            self._submit(result.part(j), func, args, {})
        return result

    def map_async(self, func, iterable, chunksize=None, *a, **k):
        return self._map(func, [(x,) for x in iterable], *a, **k)

    def starmap_async(self, func, iterable, chunksize=None, *a, **k):
        return self._map(func, [tuple(x) for x in iterable], *a, **k)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        self._check_running()
        results = [self.apply_async(func, (x,)) for x in iterable]
        return (r.get() for r in results)

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check_running()
        results = [self.apply_async(func, (x,)) for x in iterable]

        def go():
            left = list(results)
            while left:
                self.k.wait(lambda: any(r.done for r in left), "pool.wait")
                r = next(r for r in left if r.done)
                left.remove(r)
                yield r.get()
        return go()

    def close(self):
        self.k.point("pool.close")
        if self.state == RUN:
            self.state = CLOSE
            self.k.changed()

    def _over(self):
        return all(p.state == "done" for p in (self.handler, *self.workers))

    def join(self):
        if self.state == RUN:
            raise ValueError("Pool is still running")
        self.k.point("pool.join")
        self.k.wait(self._over, "pool.wait")

    def terminate(self):
        k = self.k
        k.point("pool.terminate")
        self.state = TERMINATE
        for p in self.workers:
            if p.state != "done":
                p.dead = True
                p.state = "ready"
                p.stall_until = 0
        k.changed()
        k.wait(self._over, "pool.reap")

    def shut_down(self):
        return self.state != RUN and self._over()

    def __enter__(self):
        self._check_running()
        return self

    def __exit__(self, *exc):
        self.terminate()


_real = {}


def install():
    if _real:
        return
    import multiprocessing.context as ctx
    _real["pool"], _real["thread"] = mpp.Pool, mpp.ThreadPool
    real_ctx = ctx.BaseContext.Pool

    def active():
        w = shm.STATE.world
        return w is not None and getattr(w, "pool_ok", False)

    def Pool(processes=None, initializer=None, initargs=(),
             maxtasksperchild=None, context=None):
        if active():
            return SimPool(processes, initializer, initargs)
        raise RuntimeError("a pool outside a simulated run")

    def method(self, processes=None, initializer=None, initargs=(),
               maxtasksperchild=None):
        if active():
            return SimPool(processes, initializer, initargs)
        return real_ctx(self, processes, initializer, initargs,
                        maxtasksperchild)

    ctx.BaseContext.Pool = method
    multiprocessing.Pool = mpp.Pool = mpp.ThreadPool = Pool
