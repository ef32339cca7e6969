"""
Process-level seams: clock, sleep, randomness, exit hooks, pid.  Wrappers are
installed once, before dustgoggles is imported, and dispatch on whether a
simulated world is active in the calling thread.
"""
import atexit
import os
import random
import sys
import tempfile
import threading
import time
import weakref

from sim import devshm, fs, modstate, pool, shm

REPO = os.environ.get("VERIF_REPO", "/repo")
_real = {}


def _kernel():
    w = shm.STATE.world
    return w.k if w is not None else None


def _active():
    k = _kernel()
    return k if k is not None else None


def run_finalizers(sp):
    """what weakref.finalize leaves for a process's exit, newest first"""
    for f in reversed(sp.finalizers):
        if f.alive and f.atexit:
            try:
                f()
            except Exception as ex:
                sp.exit_errors.append(f"{type(ex).__name__}: {ex}")
    sp.finalizers = []


def install():
    if _real:
        return
    sys.dont_write_bytecode = True
    shm.install()
    fs.install()
    devshm.install()
    pool.install()
    modstate.install()
    # once per real process: it registers an exit hook of the interpreter's own
    weakref.finalize(install, int).detach()
    _real.update(sleep=time.sleep, time=time.time, monotonic=time.monotonic,
                 perf=time.perf_counter, register=atexit.register,
                 unregister=atexit.unregister, getpid=os.getpid,
                 urandom=os.urandom)

    def sleep(s):
        k = _active()
        return k.sleep(s) if k is not None else _real["sleep"](s)

    def clock(name, base):
        def now():
            k = _active()
            if k is None:
                return _real[name]()
            return base + k.clock + (k.skew if name == "time" else 0)
        return now

    time.sleep = sleep
    time.time = clock("time", 1.7e9)
    time.monotonic = clock("monotonic", 1e5)
    time.perf_counter = clock("perf", 1e5)

    def clock_ns(fn, sim):
        return lambda: int(sim() * 1e9) if _active() is not None else fn()

    time.time_ns = clock_ns(time.time_ns, time.time)
    time.monotonic_ns = clock_ns(time.monotonic_ns, time.monotonic)
    time.perf_counter_ns = clock_ns(time.perf_counter_ns, time.perf_counter)

    def register(fn, *a, **k):
        kn = _active()
        if kn is None:
            return _real["register"](fn, *a, **k)
        kn.space.atexit.append((fn, a, k))
        return fn

    def unregister(fn):
        kn = _active()
        if kn is None:
            return _real["unregister"](fn)
        kn.space.atexit[:] = [e for e in kn.space.atexit if not e[0] == fn]

    atexit.register, atexit.unregister = register, unregister

    real_finalize = weakref.finalize.__init__

    def finalize(self, obj, func, /, *args, **kwargs):
        kn = _active()
        if kn is None:
            return real_finalize(self, obj, func, *args, **kwargs)
        sp = kn.space

        def call(*a, **k):
            if not any(p.was_killed for p in kn.procs if p.space is sp):
                return func(*a, **k)

        real_finalize(self, obj, call, *args, **kwargs)
        if not sp.finalizing:
            sp.finalizing = True
            sp.atexit.append((run_finalizers, (sp,), {}))
        sp.finalizers = [f for f in sp.finalizers if f.alive] + [self]

    weakref.finalize.__init__ = finalize

    def getpid():
        kn = _active()
        return 10000 + kn.space.pid if kn is not None else _real["getpid"]()

    os.getpid = getpid

    def urandom(n):
        kn = _active()
        return kn.space.rng.randbytes(n) if kn is not None \
            else _real["urandom"](n)

    os.urandom = urandom
    random._urandom = urandom
    inst = random._inst
    for name in ("randint", "random", "randrange", "choice", "choices",
                 "getrandbits", "sample", "shuffle", "uniform", "randbytes"):
        def wrap(name=name, fn=getattr(inst, name)):
            def f(*a, **k):
                kn = _active()
                if kn is None:
                    return fn(*a, **k)
                return getattr(kn.space.rng, name)(*a, **k)
            return f
        setattr(random, name, wrap())
    sequence = tempfile._RandomNameSequence
    real_next = sequence.__next__

    def next_name(self):
        kn = _active()
        return real_next(self) if kn is None else "".join(
            kn.space.rng.choices(self.characters, k=8))
    sequence.__next__ = next_name
    real_ident = threading.get_ident

    def get_ident():
        kn = _active()
        return real_ident() if kn is None or kn.current is None or \
            not modstate._caller_is_library(2) else 70000 + kn.current.pid
    threading.get_ident = get_ident
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def check_repo():
    import dustgoggles
    got = os.path.realpath(os.path.dirname(dustgoggles.__file__))
    want = os.path.realpath(os.path.join(REPO, "dustgoggles"))
    if got != want:
        raise RuntimeError(f"dustgoggles imported from {got}, not {want}")
