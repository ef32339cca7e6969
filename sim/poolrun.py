"""Workload shared by C16 and C17: jobs mapped into a simulated pool."""
import threading

from sim import shm

EXCS = dict(ValueError=ValueError, KeyError=KeyError, OSError=OSError,
            ZeroDivisionError=ZeroDivisionError, RuntimeError=RuntimeError,
            StopIteration=StopIteration, TimeoutError=TimeoutError,
            MemoryError=MemoryError, ConnectionError=ConnectionError,
            Exception=Exception)
VALUES = (None, 0, 1, "", "text", [], [1, 2], {}, {"key": 1}, {0: "zero"},
          (1, (2, None)), b"bytes", 2.5, True, False, {"chunk_0": 3})


class Poison(Exception):
    """can be pickled, but not restored"""

    def __init__(self, a, b):
        super().__init__(a)


class Cracked:
    """likewise, in its own words"""

    def __reduce__(self):
        return _crack, ()


def _crack():
    raise KeyError("cracked")


def job(*args, **kwargs):
    """what the jobs run: in a worker, or in the caller if there is none"""
    if "ident" in kwargs:
        ident = kwargs.pop("ident")
    else:
        ident, *args = args
    w = shm.STATE.world
    k, spec = w.k, w.jobs[ident]
    w.ran.append(ident)
    for _ in range(spec["points"]):
        k.point("job", ident)
    if spec["do"] != "ok":
        k.count_fault("job_" + spec["do"])
    if spec["do"] == "raise":
        raise EXCS[spec["exc"]](f"job {ident}")
    if spec["do"] == "interrupt":
        raise KeyboardInterrupt(f"job {ident}")
    if spec["do"] == "locked":
        return threading.Lock() if spec["points"] % 2 else (x for x in ())
    if spec["do"] == "poison":
        raise Poison(ident, spec["points"])
    if spec["do"] == "cracked":
        return [Cracked()] if spec["points"] % 2 else Cracked()
    if spec.get("bare"):
        return VALUES[spec["value"]]
    return (VALUES[spec["value"]], ident, tuple(args), sorted(kwargs.items()))


def many(rng, i):
    """how many jobs, if it is to be very many"""
    return rng.choice((64, 130, 260)) if i % 250 == 99 else None


def gen_jobs(rng, threads, n=None):
    n = rng.choice((0, 1, 2, 3, 5, 8, 13)) if n is None else n
    style = rng.choice(("none", "none", "str", "int", "mixed", "tuple",
                        "some"))
    keys = [f"k{j}" for j in range(n)]
    if style == "int":
        keys = rng.sample(range(100, 100 + 3 * n + 1), n)
    elif style == "tuple":
        keys = [["t", j] for j in range(n)]
    elif style == "mixed":
        keys = ([None, "", -1, "chunk_0", "chunk_1", 0.5, "key", "args",
                 False] + keys)[:n]
        rng.shuffle(keys)
    bad = rng.choice((0, 0, 0.2, 0.5, 1))
    jobs = []
    for j in range(n):
        s = dict(points=rng.choice((0, 0, 1, 2, 7)), do="ok",
                 value=rng.randrange(len(VALUES)))
        if rng.random() < bad:
            s.update(do="raise", exc=rng.choice(sorted(EXCS)))
        s["args"] = rng.choice((None, [], [1], [1, [2]]))
        s["kwargs"] = rng.choice((None, None, {}, {"a": 1}, {"key": 2},
                                  {"func": 0} if threads is None else {}))
        if rng.random() < 0.3:
            s["bare"] = True
        if rng.random() < 0.3:
            s["by"] = "kwargs"
        if style != "none" and (style != "some" or rng.random() < 0.5):
            s["key"] = keys[j]
        jobs.append(s)
    return jobs


def key_of(s, j):
    k = s.get("key", j)
    return tuple(k) if isinstance(k, list) else k


def records(jobs, base):
    """argrecs as a caller would write them"""
    out = []
    for j, s in enumerate(jobs):
        r = {}
        if s.get("by") == "kwargs":
            if s["args"] is not None:
                r["args"] = tuple(s["args"])
            r["kwargs"] = {**(s["kwargs"] or {}), "ident": base + j}
        else:
            r["args"] = (base + j, *(s["args"] or ()))
            if s["kwargs"] is not None:
                r["kwargs"] = dict(s["kwargs"])
        if "key" in s:
            r["key"] = key_of(s, j)
        out.append(r)
    return out


def expected(s, ident):
    if s["do"] == "ok" and s.get("bare"):
        return VALUES[s["value"]]
    if s["do"] == "ok":
        return (VALUES[s["value"]], ident, tuple(s["args"] or ()),
                sorted((s["kwargs"] or {}).items()))
    return None


def matches(s, ident, got):
    if s["do"] == "ok":
        return got == expected(s, ident) and type(got) is type(
            expected(s, ident))
    if s["do"] == "raise":
        return type(got) is EXCS[s["exc"]] and got.args == (f"job {ident}",)
    return isinstance(got, Exception)       # could not be sent back
