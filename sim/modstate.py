"""
What the library keeps in its modules - caches, module-level containers and
variables, containers kept by classes and functions - belongs to a process.
Simulated processes share one interpreter, so this is put away and brought
back whenever another simulated process goes on, and is as after a fresh
import when a process, or a run, begins.
"""
import collections
import functools
import itertools
import sys
import types
import weakref

PREFIX = "dustgoggles"
CONTAINERS = (dict, list, set, collections.deque, bytearray)
SKIP = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type,
        types.MethodType)
MISSING = object()


def _kernel():
    shm = sys.modules.get("sim.shm")
    w = shm.STATE.world if shm is not None else None
    return w.k if w is not None else None


def _space():
    k = _kernel()
    return k.space if k is not None else None


def _caller_is_library(depth):
    f = sys._getframe(depth)
    while f is not None and f.f_globals.get("__name__") == "functools":
        f = f.f_back
    name = f.f_globals.get("__name__", "") if f is not None else ""
    return name == PREFIX or name.startswith(PREFIX + ".")


class _Nobody:
    inherited = None


NOBODY = _Nobody()


def per_space(make):
    """a callable with one cache per simulated process"""
    tables = weakref.WeakKeyDictionary()

    def here():
        sp = _space() or NOBODY
        got = tables.get(sp)
        if got is None:
            got = tables[sp] = make()
        return got
    return here, tables


def install():
    """before the library is imported"""
    real = functools.lru_cache

    def lru_cache(maxsize=128, typed=False):
        if not _caller_is_library(2):
            return real(maxsize, typed)
        if callable(maxsize) and isinstance(typed, bool):
            return wrap(maxsize, 128, typed)
        return lambda fn: wrap(fn, maxsize, typed)

    def wrap(fn, maxsize, typed):
        here, _ = per_space(lambda: real(maxsize, typed)(fn))

        @functools.wraps(fn)
        def cached(*args, **kwargs):
            return here()(*args, **kwargs)
        cached.cache_info = lambda: here().cache_info()
        cached.cache_clear = lambda: here().cache_clear()
        cached.cache_parameters = lambda: dict(maxsize=maxsize, typed=typed)
        return cached

    functools.lru_cache = lru_cache

    # (the standard library's, not usable with a simulated scheduler: a
    # thread that waits for one never gives way)
    import threading
    for name, cls in (("Lock", SimLock), ("RLock", SimRLock)):
        setattr(threading, name, _factory(getattr(threading, name), cls))


def _factory(real, cls):
    def make(*args, **kwargs):
        if _caller_is_library(2):
            return cls()
        return real(*args, **kwargs)
    return make


class SimLock:
    """a thread lock, free in each process that has not taken it itself"""
    again = False

    def __init__(self):
        self.held, _ = per_space(lambda: [None, 0])     # by whom, how often

    def acquire(self, blocking=True, timeout=-1):
        k, held = _kernel(), self.held()
        me = (k.current if k is not None else None) or NOBODY
        if k is not None:
            k.point("tlock")
        if self.again and held[1] and held[0] is me:
            held[1] += 1
            return True
        end = None if timeout is None or timeout < 0 or k is None \
            else k.clock + timeout
        while held[1]:
            if not blocking or k is None or k.current is None:
                if blocking and timeout < 0:
                    raise RuntimeError("deadlock: lock is held")
                return False
            if end is not None and k.clock >= end:
                return False
            k.sleep(0 if end is None else max(end - k.clock, 0), "tlock")
        held[:] = [me, 1]
        return True

    def release(self):
        held = self.held()
        if not held[1]:
            raise RuntimeError("release unlocked lock")
        held[1] -= 1
        k = _kernel()
        if k is not None:
            k.changed()

    def locked(self):
        return self.held()[1] > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    again = True


# ----------------------------------------------------------- module variables
class Holder:
    """a namespace some of whose names are rebound"""

    def __init__(self, get, put, drop, names):
        self.get, self.put, self.drop, self.names = get, put, drop, names


def _contents(c):
    return bytes(c) if isinstance(c, bytearray) else c.copy()


def _refill(c, contents):
    c.clear()
    if isinstance(c, (dict, set)):
        c.update(contents)
    else:
        c.extend(contents)


class State:
    def __init__(self):
        self.names = []         # (namespace, set, name): rebound variables
        self.boxes = []         # containers changed in place
        self.spaces = []        # namespaces, for names that appear later
        seen = set()
        for name, mod in sorted(sys.modules.items()):
            if name != PREFIX and not name.startswith(PREFIX + ".") or \
                    mod is None:
                continue
            self._namespace(vars(mod), vars(mod).__setitem__,
                            vars(mod).__delitem__, seen, mod.__name__)
        self.base_names = [(ns.get(n, MISSING)) for ns, _, n in self.names]
        self.base_boxes = [_contents(c) for c in self.boxes]
        self.base_keys = [frozenset(ns) for ns, _ in self.spaces]
        self.saved = weakref.WeakKeyDictionary()
        self.now = NOBODY

    def _namespace(self, ns, put, drop, seen, module):
        if id(ns) in seen:
            return
        seen.add(id(ns))
        self.spaces.append((ns, drop))
        for name, v in list(ns.items()):
            if name.startswith("__") and name.endswith("__") or \
                    name == "_abc_impl":
                continue
            if isinstance(v, (staticmethod, classmethod)):
                v = v.__func__
            if isinstance(v, type):
                if v.__module__ == module and id(v) not in seen:
                    seen.add(id(v))
                    self._class(v, seen, module)
            elif isinstance(v, types.FunctionType):
                if v.__module__ == module and id(v) not in seen:
                    seen.add(id(v))
                    self._function(v, seen)
            elif isinstance(v, CONTAINERS):
                self._box(v, seen)
                self.names.append((ns, put, name))
            elif not isinstance(v, SKIP) and not callable(v) \
                    and not hasattr(v, "__get__"):
                self.names.append((ns, put, name))

    def _class(self, cls, seen, module):
        self._namespace(vars(cls), functools.partial(setattr, cls),
                        functools.partial(delattr, cls), seen, module)

    def _function(self, fn, seen):
        for v in (*(fn.__defaults__ or ()), *(fn.__kwdefaults__ or {}).values(),
                  *vars(fn).values()):
            if isinstance(v, CONTAINERS):
                self._box(v, seen)
        if any(not q.startswith("__") for q in vars(fn)):
            self._box(vars(fn), seen)
        for cell in fn.__closure__ or ():
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, CONTAINERS):
                self._box(v, seen)

    def _box(self, c, seen):
        if id(c) not in seen:
            seen.add(id(c))
            self.boxes.append(c)

    # ------------------------------------------------------------------ moves
    def _put_away(self):
        names = [ns.get(n, MISSING) for ns, _, n in self.names]
        extra = []
        for i, (ns, _) in enumerate(self.spaces):
            if len(ns) != len(self.base_keys[i]):
                extra += [(i, q, v) for q, v in ns.items()
                          if q not in self.base_keys[i]]
        return names, [_contents(c) for c in self.boxes], extra

    def _bring(self, names, boxes, extra):
        for (ns, put, n), v in zip(self.names, names):
            if ns.get(n, MISSING) is not v and v is not MISSING:
                put(n, v)
        for c, v in zip(self.boxes, boxes):
            _refill(c, v)
        for i, (ns, drop) in enumerate(self.spaces):
            if len(ns) != len(self.base_keys[i]):
                for q in [q for q in ns if q not in self.base_keys[i]]:
                    drop(q)
        for i, q, v in extra:
            ns, _ = self.spaces[i]
            if isinstance(ns, dict):
                ns[q] = v

    def enter(self, space):
        space = space or NOBODY
        if space is self.now:
            return
        self.saved[self.now] = self._put_away()
        self.now = space
        got = self.saved.get(space)
        if got is None:
            got = space.inherited or self.fresh()
        self._bring(*got)

    def fresh(self):
        names = [next_copy(v) for v in self.base_names]
        return names, self.base_boxes, ()

    def reset(self):
        self.saved = weakref.WeakKeyDictionary()
        self.now = NOBODY
        self._bring(*self.fresh())


def next_copy(v):
    """counters are as they were, too"""
    if isinstance(v, itertools.count):
        return type(v)(*_count_args(v))
    return v


def _count_args(v):
    return v.__reduce__()[1]


STATE = None


def take():
    """once the library has been imported"""
    global STATE
    STATE = State()


def enter(space):
    if STATE is not None:
        STATE.enter(space)


def snapshot():
    return STATE._put_away() if STATE is not None else None


def reset():
    if STATE is not None:
        STATE.reset()
