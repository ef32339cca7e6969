"""C24 removals that the operating system makes fail."""
from sim.base import SimRun, Violation, gen_sched, names
from sim.props import c06
from sim.props.c06 import ANY, Subject, verify

ID = "C24"
RULE = ("each run: one or more processes remove entries from one notepad, "
        "grid paper, index, or their stickies, one by one or all at once, "
        "while system calls of some removals fail (one call, several, or all "
        "for a while), and store entries in between; after each failure the "
        "entry is there or gone, never half; the other entries are checked, "
        "the removal is repeated without faults, and the object is listed, "
        "read, refilled and closed")
REAL = ["dustgoggles.codex.implements.* removals, clear, close; SlidingLock",
        "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib), its clean-up after errors"]
STUB = c06.STUB
ASSUMPTIONS = ["processes share one resource tracker", "each entry has one "
               "writing process", "attaching to an existing block can fail "
               "for want of a descriptor but not of memory (CPython itself "
               "then unlinks the block)", "no process is killed"]
QUICK, THOROUGH = 9000, 300000
KINDS = ("notepad", "notepad", "notemeta", "grid", "tag", "meta", "meta",
         "sticky")


def gen_val(rng, kind, n):
    while True:
        desc = c06.gen_val(rng, kind, n)
        # a sticky with None reads like none
        if kind != "sticky" or c06.value_of(kind, desc) is not None:
            return desc


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    nproc = rng.choice((1, 1, 1, 2, 3))
    keys = names(rng, max(nproc, rng.choice((1, 2, 3, 5, 7))), prefix="subj")
    if kind == "sticky":
        keys = [str(k) for k in keys]
    setup = [dict(key=k, val=gen_val(rng, kind, j))
             for j, k in enumerate(keys) if rng.random() < 0.9]
    procs, n = [], 100
    for m in range(nproc):
        mine = [k for j, k in enumerate(keys) if j % nproc == m]
        ops = []
        for _ in range(rng.choice((1, 2, 3, 5))):
            n += 1
            r = rng.random()
            if r < 0.3:
                ops.append(dict(op="set", key=rng.choice(mine),
                                val=gen_val(rng, kind, n)))
            elif r < 0.4 and nproc == 1 and kind != "sticky":
                ops.append(dict(op="clear", retry=rng.random() < 0.7,
                                look=rng.random() < 0.7))
            else:
                ops.append(dict(op="del", key=rng.choice(mine),
                                retry=rng.random() < 0.6,
                                look=rng.random() < 0.7))
        faults = [gen_fault(rng) for _ in range(rng.choice((1, 1, 2)))] \
            if m == 0 or rng.random() < 0.4 else []
        procs.append(dict(ops=ops, faults=faults, mine=[str(q) for q in mine]))
    cfg = dict(kind=kind, close=[gen_fault(rng)] if rng.random() < 0.4 else [])
    return dict(cfg=cfg, setup=setup, procs=procs, max_steps=20000,
                sched=gen_sched(rng, 200 * nproc))


def gen_fault(rng):
    r = rng.random()
    if r < 0.5:
        call = rng.choice(("create", "open", "open", "trunc", "mmap"))
        return dict(kind="errno", call=call, nth=rng.randint(
            1, 16 if call == "open" else 3), times=rng.choice((1, 1, 1, 2, 3)),
            errno=c06.err_for(rng, call))
    calls = (["create", "open"], ["create", "trunc", "mmap"])[r < 0.75]
    return {"kind": "errno", "from": rng.randint(1, 60), "calls": calls,
            "times": rng.choice((1, 2, 5, 9)), "errno": "ENOMEM"
            if "mmap" in calls else rng.choice(("EMFILE", "ENFILE"))}


class Quiet:
    """no faults meanwhile"""

    def __init__(self, p):
        self.p = p

    def __enter__(self):
        p = self.p
        self.kept = p.windows, p.call_faults
        p.windows, p.call_faults = [], {}

    def __exit__(self, *_):
        self.p.windows, self.p.call_faults = self.kept


def remove(s, key):
    if s.kind == "sticky":
        s.notes[key].pull()
    elif s.kind in ("tag", "meta"):
        s.o.remove(key)
    else:
        del s.o[key]


def state(run, kind, s, key, old, when):
    """is `key` there (True) or gone (False)? it must not be half there"""
    listed = s.keys()
    there = None if listed is None else key in listed
    o = run.h.do("read", (key,), lambda: s.read(key))
    if o.ok:
        readable = not (kind == "sticky" and o.value is None
                        or kind == "tag" and o.value is False)
    elif o.exc in ("KeyError", "FileNotFoundError"):
        readable = False
    else:
        raise Violation("half-removed", f"{when}: reading {key!r}: {o!r}")
    if there is not None and there != readable:
        raise Violation("half-removed", f"{when}: {key!r} is "
                        f"{'' if there else 'not '}listed in {listed}, but "
                        f"reading it gives {o!r}")
    if readable and not c06.match(kind, old[0], o.value):
        raise Violation("half-removed", f"{when}: reading {key!r} gives {o!r},"
                        f" stored {old}")
    return readable


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    kind = cfg["kind"]
    with SimRun(plan, chooser) as run:
        k = run.k
        truth, notes, owned = {}, {}, {}

        def prepare(p):
            s = Subject(kind, True)
            for op in plan["setup"]:
                s.store(op["key"], op["val"])
                truth[str(op["key"])] = [op["val"]]
            notes.update(getattr(s, "notes", {}))
        run.solo(prepare, "filling")

        def removal(p, s, key, op):
            before = truth.get(key)
            if before is None and kind == "sticky":
                return
            truth[key] = ANY
            nf = c06.fired(p)
            o = run.h.do("del", (key,), lambda: remove(s, key))
            if o.ok or o.exc == "KeyError" and before is None:
                if o.ok and before is None:
                    raise Violation("not-there", f"{o!r}")
                del truth[key]
                return
            check_error(p, nf, o)
            with Quiet(p):
                settle(p, s, key, before, op, o)

        def settle(p, s, key, before, op, o):
            fresh = Subject(kind, False)
            there = state(run, kind, fresh, key, before, f"after {o!r}") \
                if before is not None else False
            if there:
                truth[key] = before
            else:
                del truth[key]
            if op["look"]:
                verify(run, kind, fresh, known(p), f"after {o!r}",
                       len(plan["procs"]) == 1)
            if not op["retry"] or kind == "sticky" and not there:
                return
            o = run.h.do("del", (key,), lambda: remove(s, key))
            if o.ok != there or not there and o.exc != "KeyError":
                raise Violation("retry-failed", f"{o!r}, but {key!r} was "
                                f"{'' if there else 'not '}there")
            truth.pop(key, None)
            if state(run, kind, fresh, key, before, f"after {o!r}") \
                    if before is not None else False:
                raise Violation("not-removed", f"{key!r} after {o!r}")
            verify(run, kind, fresh, known(p), f"after {o!r}",
                   len(plan["procs"]) == 1)

        def known(p):
            return {q: t for q, t in truth.items() if t is not ANY
                    and q in owned[p.pid]}

        def check_error(p, nf, o):
            if c06.fired(p) == nf or o.exc not in ("OSError",
                                                   "PermissionError"):
                raise Violation("removal-error", f"{o!r}")
            k.probe("removal failed")

        def wipe(s):
            if kind in ("tag", "meta"):
                for key in list(s.o.update()):
                    s.o.remove(key)
            else:
                s.o.clear()

        def clearing(p, s, op):
            before = dict(truth)
            nf = c06.fired(p)
            o = run.h.do("clear", (), lambda: wipe(s))
            if o.ok:
                truth.clear()
            else:
                check_error(p, nf, o)
            with Quiet(p):
                fresh = Subject(kind, False)
                for key, old in before.items():
                    if not state(run, kind, fresh, key, old, f"after {o!r}"):
                        truth.pop(key, None)
                    elif o.ok:
                        raise Violation("not-removed", f"{key!r} after {o!r}")
                verify(run, kind, fresh, known(p), f"after {o!r}")
                if not o.ok and op["retry"]:
                    o = run.h.do("clear", (), lambda: wipe(s))
                    if not o.ok or fresh.keys():
                        raise Violation("retry-failed", f"{o!r}, keys "
                                        f"{fresh.keys()}")
                    truth.clear()

        def body(spec):
            def fn(p):
                with Quiet(p):
                    s = Subject(kind, False)
                if kind == "sticky":
                    s.notes.update(notes)
                owned[p.pid] = set(spec["mine"])
                p.points, p.calls = 0, {}
                for op in spec["ops"]:
                    if op["op"] == "set":
                        key = str(op["key"])
                        with Quiet(p):
                            truth[key] = ANY
                            o = run.h.do("store", (key, op["val"]),
                                         lambda: s.store(key, op["val"]))
                            if not o.ok:
                                raise Violation("store-failed", f"{o!r}")
                            truth[key] = [op["val"]]
                            verify(run, kind, s, {key: truth[key]},
                                   f"after {o!r}")if kind == "sticky" else \
                                verify(run, kind, s, {key: truth[key]},
                                       f"after {o!r}", False)
                    elif op["op"] == "clear":
                        clearing(p, s, op)
                    else:
                        removal(p, s, str(op["key"]), op)
                if kind == "sticky":
                    notes.update(s.notes)
            return fn

        def guarded(fn):
            def g(p):
                try:
                    fn(p)
                except Violation as v:
                    run.fail(v.cls, v.msg)
            return g

        for spec in plan["procs"]:
            k.spawn(guarded(body(spec)), faults=spec["faults"])
        run.go()
        run.require_end("removals")

        def final(p):
            s = Subject(kind, False)
            verify(run, kind, s, truth, "at the end")
            # the freed places can be used again
            for j, op in enumerate(plan["setup"]):
                key = str(op["key"])
                if key not in truth:
                    s.store(key, op["val"])
                    truth[key] = [op["val"]]
            verify(run, kind, s, truth, "after refilling")
            notes.update(getattr(s, "notes", {}))

        def ending(faults):
            def fn(p):
                with Quiet(p):
                    s = Subject(kind, False)
                if kind == "sticky":
                    s.notes = {q: n for q, n in notes.items()
                               if q in truth}
                p.points, p.calls = 0, {}
                nf = c06.fired(p)
                o = run.h.do("close", (), lambda: shut(s))
                if o.ok:
                    return
                check_error(p, nf, o)
                k.probe("close failed")
                with Quiet(p):
                    o = run.h.do("close", (), lambda: shut(s))
                    if not o.ok:
                        raise Violation("retry-failed", f"{o!r}")
            return fn

        def shut(s):
            if kind == "sticky":
                for q, n in sorted(s.notes.items()):
                    n.close()
                    del s.notes[q]
            else:
                s.o.close()

        run.solo(guarded(final), "the final pass")
        p = k.spawn(guarded(ending(cfg["close"])), faults=cfg["close"])
        run.go()
        run.require_end("closing")
        left = run.w.blocks("subj")
        if left:
            raise Violation("left-behind", f"after closing, {left} remain")
    return run.out
