"""C30 arrays got without a copy."""
from sim.arrays import DTYPES, FIELDS, array_equal, build_array, gen_array
from sim.base import SimRun, Violation, gen_sched, names, short

ID = "C30"
RULE = ("each run: 1-3 processes (or threads sharing one object) store, "
        "overwrite, delete and read arrays of one grid paper and hold live "
        "views of them, look at and write through these and through arrays "
        "derived from them, store these again, let go of the paper they came from, clear or "
        "close it; in turns or interleaved; every block mapping has an "
        "address of its own, so that an array whose mapping has been closed "
        "is recognised; contents are compared with a model wherever nothing "
        "overlapped")
REAL = ["dustgoggles.codex.implements.GridPaper, MetaTagIndex, SlidingLock",
        "dustgoggles.codex.codecs.numpy_mnemonic_factory, memutilz",
        "multiprocessing.shared_memory (stdlib)", "numpy",
        "memory mappings of one file under several addresses (memfd)"]
STUB = ["_posixshmem, fstat/ftruncate/close (in-memory namespace)",
        "munmap (recorded, not performed)", "resource tracker client",
        "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker",
               "a write through a view is one step",
               "plain arrays (no subclasses)"]
QUICK, THOROUGH = 9000, 300000
DERIVED = ("slice", "reshape", "memory", "bytes", "ravel", "again")


ORDER = ("back", "back", "turn", "roll", "part", "tail", "same", "field",
         "wide")


def gen(rng, i, tier):
    nproc = rng.choice((1, 1, 2, 2, 3))
    turns = rng.random() < 0.6
    keys = [str(k) for k in names(rng, rng.choice((1, 2, 2, 4)),
                                  prefix="grid")]
    same = rng.random() < 0.5       # arrays of one kind fit in each other's
    few = gen_array(rng, 0)
    n, t = 0, 0

    def val():
        nonlocal n
        n += 1
        v = gen_array(rng, n)
        return dict(few, tag=n) if same and rng.random() < 0.7 else v

    setup = [dict(op="set", key=k, val=val()) for k in keys
             if rng.random() < 0.75]
    procs = [dict(ops=[], faults=[], thread=nproc > 1 and not turns
                  and rng.random() < 0.5) for _ in range(nproc)]
    slots = [[] for _ in range(nproc)]
    closed = False
    big = i % 300 == 99         # a long life
    for _ in range(300 if big else rng.choice((6, 12, 25))):
        m = rng.randrange(nproc)
        r, key = rng.random(), rng.choice(keys)
        mine = slots[m]
        t += 1
        if closed:
            r = 0.4 if r < 0.9 else 0.55
        if r < 0.24:
            s = f"s{t}"
            mine.append(s)
            op = dict(op="view", key=key, slot=s,
                      how=rng.choice(("get", "get", "item")))
        elif r < 0.5 and mine:
            op = dict(op="look", slot=rng.choice(mine))
        elif r < 0.6 and mine:
            op = dict(op="drop", slot=mine.pop(rng.randrange(len(mine))))
        elif r < 0.68 and mine:
            op = dict(op="write", slot=rng.choice(mine), tag=1000 + t)
        elif r < 0.71 and mine and not closed:
            op = dict(op="restore", slot=rng.choice(mine), key=rng.choice(
                (None, None, None, key)), how=rng.choice(ORDER))
        elif r < 0.76 and mine:
            s = rng.choice(mine)
            op = dict(op="derive", slot=s, how=rng.choice(DERIVED))
        elif closed:
            continue
        elif r < 0.82:
            op = dict(op="set", key=key, val=val(),
                      how=rng.choice(("set", "item", "keep")))
        elif r < 0.87:
            op = dict(op="del", key=key)
        elif r < 0.94:
            op = dict(op="reopen")
        elif r < 0.95:
            op = dict(op="clear")
        elif r < (0.951 if big else 0.965) and turns:
            op, closed = dict(op="close"), True
        else:
            op = dict(op="read", key=key)
        procs[m]["ops"].append(dict(op, t=t))
    for m, p in enumerate(procs):
        for s in slots[m]:
            t += 1
            p["ops"].append(dict(op="look", slot=s, t=t))
        if not any(o["op"] in ("set", "del", "clear", "close")
                   for o in p["ops"]) and rng.random() < 0.3:
            p["faults"].append(dict(
                kind="errno", call=rng.choice(("open", "open", "stat")),
                nth=rng.randint(1, 6), times=rng.choice((1, 2)),
                errno=rng.choice(("EMFILE", "ENFILE"))))
        for o in p["ops"]:
            o["held"] = rng.random() < 0.5
    return dict(cfg=dict(turns=turns), setup=setup, procs=procs,
                max_steps=1000000 if big else 40000, sched=gen_sched(rng, 200 * nproc))


def describe(a):
    """what gen_array calls the type of a"""
    import numpy as np
    for name in DTYPES:
        d = np.dtype(FIELDS.get(name, name))
        if d == a.dtype and d.byteorder == a.dtype.byteorder:
            return name


def derive(a, how):
    import numpy as np
    if how == "slice" and a.ndim:
        return a[tuple(slice(None) for _ in a.shape)]
    if how == "reshape":
        return a.reshape(a.shape[::-1]).reshape(a.shape)
    if how == "ravel":
        return a.ravel().view().reshape(a.shape)
    if how == "memory" and a.dtype.kind not in "MmU" and a.size \
            and a.dtype.fields is None and a.dtype.byteorder != ">":
        return np.asarray(memoryview(a))
    if how == "bytes" and a.ndim and a.size:
        return a.view("u1").view(a.dtype)
    if how == "again":
        return np.asarray(a).view(np.ndarray)
    return a[...]


def order(a, how):
    """an array that shares memory with a, in another order or form"""
    if how == "back" and a.ndim:
        return a[::-1]
    if how == "turn":
        return a.T
    if how == "roll" and a.ndim > 1 and a.shape[0]:
        return a.swapaxes(0, -1)
    if how == "part" and a.ndim:
        return a[::2]
    if how == "tail" and a.ndim and a.shape[0] > 1:
        return a[1:]
    if how == "field" and a.dtype.fields:
        return a[a.dtype.names[-1]]
    if how == "wide" and a.ndim:
        return a.ravel()[::-1].reshape(-1, 1)
    return a


class Slot:
    def __init__(self, key, op, array):
        self.key, self.op, self.array = key, op, array


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    with SimRun(plan, chooser) as run:
        w, h = run.w, run.h
        w.distinct = True
        from dustgoggles.codex.implements import GridPaper
        turns = sorted(o["t"] for p in plan["procs"] for o in p["ops"])

        def place(a):
            """the mapping the elements of a are in"""
            return w.mapping_of(a.__array_interface__["data"][0])

        def safe(slot, op):
            if slot.array.size == 0:
                return True
            m = place(slot.array)
            if m is not None and m.closed:
                run.fail("dangling", f"{op}: the memory of the array got by "
                         f"{slot.op!r} has been unmapped")
                return False
            return True

        def look(slot):
            import numpy as np
            return np.array(slot.array)

        def write(slot, tag):
            a = slot.array
            new = build_array(dict(tag=tag, dtype=slot.kind, layout="C",
                                   shape=list(a.shape)))
            run.k.point("write", "view")
            run.k.changed()
            a[...] = new
            return new

        def attach():
            for _ in range(9):
                o = h.do("open", (), lambda: GridPaper("grid"))
                got, o.value = o.value, None
                if o.ok:
                    return got
            run.fail("open-error", f"{o!r}")

        def act(box, slots, op):
            import numpy as np
            kind, name = op["op"], op.get("slot")
            paper = box[0]
            if name is not None and kind != "view":
                if name not in slots:
                    return
                slot = slots[name]
                if kind == "drop":
                    # (nothing is recorded that would keep the array alive)
                    del slots[name], slot
                    run.k.point("drop", name)
                    return
                if not safe(slot, op):
                    return
                if kind == "look":
                    h.do("look", (slot.key, slot.op), lambda: look(slot))
                elif kind == "write":
                    if slot.kind is not None and slot.array.flags.writeable:
                        h.do("write", (slot.key, slot.op),
                             lambda: write(slot, op["tag"]))
                elif kind == "restore":
                    def again():
                        a = order(slot.array, op["how"])
                        want = np.array(a)
                        run.k.probe("restored_" + op["how"])
                        paper.set(key, a)
                        return want
                    key = op["key"] or slot.key
                    h.do("set", (key, "view", op["how"], slot.key), again)
                elif kind == "derive":
                    slot.array = derive(slot.array, op["how"])
                return
            key = op.get("key")
            if kind == "set":
                a = build_array(op["val"])
                how = op.get("how", "set")
                h.do("set", (key, op["val"], how), lambda: (
                    paper.__setitem__(key, a, keep_open=True)
                    if how == "keep" else paper.__setitem__(key, a)
                    if how == "item" else paper.set(key, a)))
            elif kind == "del":
                h.do("del", (key,), lambda: paper.__delitem__(key))
            elif kind == "clear":
                h.do("clear", (), paper.clear)
            elif kind == "close":
                h.do("close", (), paper.close)
            elif kind == "read":
                h.do("read", (key,), lambda: paper.get(key, copy=True))
            elif kind == "reopen":
                if box[1]:
                    return
                held = op["held"]
                if not held:
                    box[0] = paper = None
                box[0] = attach()
                paper = None
            elif kind == "view":
                def go():
                    got = paper.get(key) if op["how"] == "get" else \
                        paper.__getitem__(key, copy=False)
                    if got is None:
                        return None
                    s = slots[name] = Slot(key, None, got)
                    s.kind = describe(got)
                    return tuple(got.shape)
                o = h.do("view", (key, op["how"]), go)
                if name in slots:
                    slots[name].op = o
                    if not isinstance(slots[name].array, np.ndarray):
                        run.fail("type", f"{o!r} gave no array")

        def prepare(p):
            box = [GridPaper("grid", create=True), False]
            for op in plan["setup"]:
                act(box, {}, op)
        run.solo(prepare, "filling")
        shared = [None, None]
        every, ready = [], []

        def body(spec, box):
            def fn(p):
                mine = box or [attach(), False]
                ready.append(p)
                if cfg["turns"]:
                    run.k.wait(lambda: len(ready) == len(plan["procs"]))
                slots = {}
                for op in spec["ops"]:
                    if cfg["turns"]:
                        run.k.wait(lambda: turns and turns[0] == op["t"])
                    act(mine, slots, op)
                    if cfg["turns"]:
                        turns.pop(0)
                        run.k.changed()
                every.append(slots)
            return fn

        for spec in plan["procs"]:
            if spec["thread"]:
                if shared[0] is None:
                    shared[0] = [GridPaper("grid"), True]
                p = run.k.spawn(body(spec, shared[0]), faults=spec["faults"],
                                space=shared[1])
                shared[1] = p.space
            else:
                run.k.spawn(body(spec, None), faults=spec["faults"])
        run.go()
        run.require_end("grid paper operations")
        if not any(o.kind == "close" for o in h.ops):
            def final(p):
                box = [GridPaper("grid"), False]
                for k in sorted({o.args[0] for o in h.ops if o.args}):
                    act(box, {}, dict(op="read", key=k))
            run.solo(final, "reading at rest")
        judge(run)
        every.clear()
    return run.out


def overlap(a, b):
    return not (a.ret < b.inv or b.ret < a.inv)


def judge(run):
    ops = run.h.ops
    faults = run.k.fault_counts
    for o in ops:
        if o.ok or o.kind in ("look", "write") and o.ok:
            continue
        if o.exc == "KeyError" and o.kind in ("del", "view"):
            continue
        if o.exc == "OSError" and o.kind in ("view", "read", "open") and any(
                e in faults for e in ("EMFILE", "ENFILE")):
            continue
        busy = any(u is not o and u.kind in ("set", "del", "clear", "close")
                   and overlap(u, o) for u in ops)
        if o.kind in ("view", "read") and busy:
            continue
        raise Violation(f"{o.kind}-error", f"{o!r}")
    # (one operation can have changed many keys)
    keys = {o.args[0] for o in ops if o.args}
    for key in sorted(keys):
        changes = [o for o in ops if o.kind in ("clear", "close")
                   or o.args[:1] == (key,) and o.kind in (
                       "set", "del", "write")]
        for o in ops:
            if o.args[:1] != (key,) or o.kind not in ("look", "read") \
                    or not o.ok:
                continue
            want = expected(changes, o, ops)
            if want is UNKNOWN:
                continue
            if o.kind == "look" and not live(changes, o.args[1], o):
                continue
            got = o.value
            if want is None or got is None:
                good = want is None and got is None
            else:
                good = array_equal(got, want)
            if not good:
                raise Violation(f"{o.kind}-content", f"{o!r} gave "
                                f"{short(got, 60)}; there is "
                                f"{short(want, 60)}")


UNKNOWN = object()


CHANGING = ("set", "del", "write", "clear", "close")


def expected(changes, o, every):
    """what is stored under a key when o looks at it"""
    before = [c for c in changes if c.inv < o.ret]
    if any(overlap(c, o) for c in before):
        return UNKNOWN
    state = None
    for ix, c in enumerate(before):
        if any(overlap(c, d) for d in before if d is not c):
            state = UNKNOWN
        elif c.kind == "set":
            if c.args[1] != "view":
                state = build_array(c.args[1])
            elif any(d is not c and overlap(c, d) and (
                    not d.args or d.args[0] == c.args[3]) for d in every
                    if d.kind in CHANGING):
                state = UNKNOWN     # what was stored was being changed
            else:
                state = c.value
        elif c.kind in ("del", "clear", "close"):
            state = None
        elif state is not UNKNOWN and live(changes, c.args[1], c):
            state = c.value
        else:
            state = UNKNOWN
    return state


def live(changes, view, o):
    """whether nothing was stored or removed since the view was got"""
    return not any(c.kind != "write" and c.inv < o.ret and c.ret > view.inv
                   for c in changes if c is not o)
