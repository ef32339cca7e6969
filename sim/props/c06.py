"""C06 stores that the operating system makes fail."""
import json

from sim.arrays import array_equal, build_array, gen_array
from sim.base import (SimRun, Violation, build_value, gen_sched, gen_value,
                      given,
                      names, same)

ID = "C06"
RULE = ("each run: one or more processes store entries in one notepad, grid "
        "paper, index or sticky while the system calls of some stores fail "
        "(one call, several, or all for a while) and some values cannot be "
        "stored at all; then the others' entries "
        "are checked, the store is repeated without faults, and the object "
        "is listed, read and closed")
REAL = ["dustgoggles.codex.implements.* stores, SlidingLock",
        "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib), its clean-up after errors"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker", "each entry has one "
               "writing process", "attaching to an existing block can fail "
               "for want of a descriptor but not of memory (CPython itself "
               "then unlinks the block)"]
QUICK, THOROUGH = 9000, 300000
KINDS = ("notepad", "notepad", "notemeta", "grid", "tag", "meta", "sticky")


def gen_val(rng, kind, n):
    if kind == "grid":
        return gen_array(rng, n)
    return gen_value(rng, n) if kind != "meta" else ["m", n, rng.randrange(40)]


def gen_fault(rng):
    r = rng.random()
    if r < 0.45:
        call = rng.choice(("create", "create", "open", "trunc", "mmap"))
        return dict(kind="errno", call=call, nth=rng.randint(1, 12),
                    times=rng.choice((1, 1, 1, 2, 3)),
                    errno=err_for(rng, call))
    if r < 0.75:
        return {"kind": "errno", "from": rng.randint(1, 40),
                "calls": ["create", "open"], "times": rng.choice((1, 2, 5, 9)),
                "errno": rng.choice(("EMFILE", "ENFILE"))}
    return {"kind": "errno", "from": rng.randint(1, 40),
            "calls": ["create", "trunc", "mmap"],
            "times": rng.choice((1, 2, 4)), "errno": "ENOMEM"}


def err_for(rng, call):
    return dict(create=rng.choice(("EMFILE", "ENFILE", "ENOMEM", "ENOSPC",
                                   "EACCES")),
                open=rng.choice(("EMFILE", "ENFILE")), trunc="ENOSPC",
                mmap="ENOMEM")[call]


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    nproc = rng.choice((1, 1, 2, 3))
    keys = names(rng, max(nproc, rng.choice((2, 3, 5))), prefix="subj")
    n = 0
    setup = []
    for k in keys:
        if rng.random() < 0.5:
            n += 1
            setup.append(dict(op="set", key=k, val=gen_val(rng, kind, n)))
    procs = []
    for m in range(nproc):
        mine = [k for j, k in enumerate(keys) if j % nproc == m]
        ops = []
        for _ in range(rng.choice((1, 1, 2, 4))):
            n += 1
            ops.append(dict(op="set", key=rng.choice(mine),
                            val=gen_val(rng, kind, n),
                            bad=kind != "tag" and rng.random() < 0.12,
                            retry=rng.random() < 0.8,
                            look=rng.random() < 0.7,
                            drop=rng.random() < 0.5))
        faults = [gen_fault(rng) for _ in range(rng.choice((1, 1, 2)))] \
            if m == 0 or rng.random() < 0.4 else []
        procs.append(dict(ops=ops, faults=faults))
    cfg = dict(kind=kind, cleanup=rng.random() < 0.2)
    return dict(cfg=cfg, setup=setup, procs=procs, max_steps=20000,
                sched=gen_sched(rng, 200 * nproc))


def value_of(kind, desc):
    if kind == "grid":
        return build_array(desc)
    if kind == "meta":
        return {"tag": desc[1], "pad": "p" * desc[2]}
    return build_value(desc)


class Unsendable:
    def __reduce__(self):
        raise ValueError("cannot be pickled")


def bad_value(kind, n):
    if kind == "grid":
        import numpy as np
        obj = np.empty(2, dtype=object)
        return (obj, [1, 2], np.zeros(2, dtype=[("o", object)]))[n % 3]
    if kind == "meta":
        return {"tag": {n}}
    return ["fine", n, Unsendable()]


class Subject:
    def __init__(self, kind, create, name="subj", **kw):
        from dustgoggles.codex import implements as im
        self.kind, self.name = kind, name
        if kind == "sticky":
            self.o, self.notes = None, {}
        elif kind in ("notepad", "notemeta"):
            self.o = im.Notepad(name, create=create, **kw,
                                index_type=im.TagIndex if kind == "notepad"
                                else im.MetaTagIndex)
        else:
            cls = dict(grid=im.GridPaper, tag=im.TagIndex,
                       meta=im.MetaTagIndex)[kind]
            self.o = cls(name, create=create, **kw)

    def store(self, key, desc, bad=False):
        v = bad_value(self.kind, desc[1] if self.kind != "grid"
                      else desc["tag"]) if bad else value_of(self.kind, desc)
        if self.kind == "sticky":
            from dustgoggles.codex.implements import Sticky
            if key in self.notes:
                self.notes[key].stick(v)
            else:
                self.notes[key] = Sticky.note(v, f"{self.name}_{key}")
        elif self.kind == "tag":
            self.o.add(given(key))
        elif self.kind == "meta":
            self.o.add(given(key), v)
        else:
            self.o.set(given(key), v)

    def keys(self):
        return None if self.kind == "sticky" else list(self.o.update()) \
            if self.kind in ("tag", "meta") else list(self.o.keys())

    def read(self, key):
        if self.kind == "sticky":
            from dustgoggles.codex.implements import Sticky
            got = Sticky(f"{self.name}_{key}").read()
            return got
        if self.kind == "tag":
            return self.o.check(given(key)) is not None
        if self.kind == "meta":
            return json.loads(bytes(self.o[given(key)]))
        return self.o[given(key)]

    def close(self):
        if self.kind == "sticky":
            for n in self.notes.values():
                n.close()
            return
        if self.kind in ("tag", "meta"):
            for k in list(self.o.update()):
                self.o.remove(k)
        self.o.close()


def match(kind, desc, got):
    if kind == "tag":
        return got is True
    want = value_of(kind, desc)
    return array_equal(got, want) if kind == "grid" else same(want, got)


def verify(run, kind, sub, truth, when, listing=True):
    """truth: key -> list of acceptable descriptions (None: may be missing)"""
    keys = sub.keys()
    if keys is not None and listing:
        if len(set(keys)) != len(keys):
            raise Violation("duplicate", f"{when}: keys {keys}")
        ghosts = [k for k in keys if k not in truth]
        if ghosts:
            raise Violation("ghost", f"{when}: keys {keys} include {ghosts}")
    for key, oks in truth.items():
        if oks is ANY:
            continue
        if keys is not None and key not in keys and listing:
            raise Violation("unlisted", f"{when}: {key!r} is not among {keys}")
        o = run.h.do("read", (key,), lambda: sub.read(key))
        if not o.ok or not any(match(kind, d, o.value) for d in oks):
            raise Violation("unreadable", f"{when}: reading {key!r} gives "
                            f"{o!r}, stored {oks}")


ANY = "any"


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    kind = cfg["kind"]
    with SimRun(plan, chooser) as run:
        k = run.k
        truth = {}
        notes = {}
        settled = {}

        def prepare(p):
            s = Subject(kind, True)
            for op in plan["setup"]:
                s.store(op["key"], op["val"])
                truth[str(op["key"])] = [op["val"]]
            notes.update(getattr(s, "notes", {}))
        run.solo(prepare, "filling")

        def body(spec):
            def fn(p):
                # the construction of this handle is not a store
                windows, p.windows = p.windows, []
                calls, p.call_faults = p.call_faults, {}
                s = Subject(kind, False)
                if kind == "sticky":
                    s.notes.update({q: n for q, n in notes.items()})
                p.windows, p.call_faults = windows, calls
                p.points, p.calls = 0, {}
                for op in spec["ops"]:
                    key = str(op["key"])
                    before = truth.get(key)
                    truth[key] = ANY     # being changed
                    nf = fired(p)
                    if op.get("bad"):
                        o = run.h.do("store-bad", (key, op["val"]),
                                     lambda: s.store(op["key"], op["val"],
                                                     True))
                        if o.ok:
                            raise Violation("bad-accepted", f"{o!r}")
                        refused(run, p, kind, key, before, nf, o, truth)
                        continue
                    o = run.h.do("store", (key, op["val"]),
                                 lambda: s.store(op["key"], op["val"]))
                    if o.ok:
                        truth[key] = [op["val"]]
                        continue
                    if fired(p) == nf or o.exc not in (
                            "OSError", "PermissionError"):
                        raise Violation("store-error", f"{o!r}")
                    k.probe("store failed")
                    windows, p.windows = p.windows, []
                    calls, p.call_faults = p.call_faults, {}
                    if op["look"]:
                        fresh = Subject(kind, False)
                        verify(run, kind, fresh,
                               {q: t for q, t in truth.items() if q != key
                                and q in mine(plan, spec)} if len(
                                    plan["procs"]) > 1 else dict(truth),
                               f"after {o!r}", len(plan["procs"]) == 1)
                    if op["retry"] or kind == "sticky":
                        o = run.h.do("store", (key, op["val"]),
                                     lambda: s.store(op["key"], op["val"]))
                        if not o.ok:
                            raise Violation("retry-failed", f"{o!r}")
                        truth[key] = [op["val"]]
                        verify(run, kind, s, {key: truth[key]},
                               f"after repeating {o!r}", False)
                    elif op.get("drop"):
                        drop(run, kind, s, op["key"], o)
                        truth.pop(key)
                    p.windows, p.call_faults = windows, calls
                if kind == "sticky":
                    notes.update(s.notes)
            return fn

        def guarded(fn):
            def g(p):
                try:
                    fn(p)
                except Violation as v:
                    run.fail(v.cls, v.msg)
            return g

        for spec in plan["procs"]:
            k.spawn(guarded(body(spec)), faults=spec["faults"])
        run.go()
        run.require_end("stores")

        def final(p):
            s = Subject(kind, False)
            # an entry whose store failed for good may be there or not
            verify(run, kind, s, truth, "at the end")
            for key, t in sorted(truth.items()):
                if t == ANY:
                    d = next(op["val"] for sp in plan["procs"]
                             for op in sp["ops"] if str(op["key"]) == key)
                    o = run.h.do("store", (key, d), lambda: s.store(key, d))
                    if not o.ok:
                        raise Violation("retry-failed", f"{o!r}")
                    truth[key] = [d]
            verify(run, kind, s, truth, "after repeating")
            s.notes = notes if kind == "sticky" else None
            o = run.h.do("close", (), s.close)
            if not o.ok:
                raise Violation("close-error", f"{o!r}")
        run.solo(guarded(final), "the final pass")
        left = run.w.blocks("subj")
        if kind in ("tag", "meta"):
            left = [b for b in left]
        if left:
            raise Violation("left-behind", f"after closing, {left} remain")
    return run.out


def drop(run, kind, s, key, cause):
    """removing what a failed store left (if anything) leaves nothing"""
    o = run.h.do("drop", (key,), lambda: s.o.remove(key) if kind in (
        "tag", "meta") else s.o.__delitem__(key))
    if not o.ok and o.exc != "KeyError":
        raise Violation("drop-error", f"{o!r} after {cause!r}")
    listed = s.keys()
    r = run.h.do("read", (str(key),), lambda: s.read(str(key)))
    if str(key) in listed or r.ok and r.value is not False or \
            not r.ok and r.exc != "KeyError":
        raise Violation("not-dropped", f"{o!r} after {cause!r}: listed "
                        f"{listed}, {r!r}")


def refused(run, p, kind, key, before, nf, o, truth):
    """a value that cannot be stored must change nothing"""
    run.k.probe("value refused")
    if fired(p) != nf:
        return          # a fault may have hit it too: the key's state is open
    windows, p.windows = p.windows, []
    calls, p.call_faults = p.call_faults, {}
    fresh = Subject(kind, False)
    if before is None:
        listed = fresh.keys()
        if listed is not None and key in listed:
            raise Violation("refused-listed", f"{key!r} is listed after {o!r}")
        r = run.h.do("read", (key,), lambda: fresh.read(key))
        if r.ok and not (kind == "sticky" and r.value is None):
            raise Violation("refused-readable", f"{r!r} after {o!r}")
        del truth[key]
    else:
        if before is not ANY:
            verify(run, kind, fresh, {key: before}, f"after {o!r}", False)
        truth[key] = before
    p.windows, p.call_faults = windows, calls


def fired(p):
    return sum(p.kernel.fault_counts.values())


def mine(plan, spec):
    return {str(op["key"]) for op in spec["ops"]}
