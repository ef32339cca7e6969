"""C12 exclusive creation, exclusive stores, reserved names."""
import pathlib

from sim.base import (SimRun, Violation, build_value, gen_sched, gen_value,
                      names, same, slow)
from sim.props import c05, c06

ID = "C12"
RULE = ("each run, one of: 2-4 processes create the same notepad, grid paper "
        "or index at once (or find it existing), others open it, all use it; "
        "or 1-4 processes store few keys exclusively and otherwise, remove "
        "and read them, and try reserved names")
REAL = ["dustgoggles.codex.implements constructors and stores, SlidingLock",
        "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker",
               "nobody uses an object while its creator is closing it"]
QUICK, THOROUGH = 16000, 450000
MISSING = "<missing>"
RESERVED = ("index", "index_lock", "index_count", "index_gate", "index_key_0",
            "index_val_0", "index_1", "index_1_lock", "indexed", "hash")


def gen(rng, i, tier):
    return gen_race(rng) if rng.random() < 0.5 else gen_store(rng)


# ------------------------------------------------- racing constructors
def gen_race(rng):
    kind = rng.choice(("notepad", "notepad", "notemeta", "grid", "tag",
                       "meta"))
    nmake = rng.choice((0, 1, 2, 2, 2, 3, 4))
    nopen = rng.choice((0, 0, 1, 2)) if nmake else 2
    keys = names(rng, 4, "short")
    n = 0
    setup = []
    pre = rng.random() < 0.25
    if pre:
        for key in keys[:rng.choice((0, 1, 2))]:
            n += 1
            setup.append(dict(op="set", key=key,
                              val=c06.gen_val(rng, kind, n)))
    procs = []
    for m in range(nmake + nopen):
        ops = []
        for key in rng.sample(keys, rng.choice((0, 1, 2))):
            n += 1
            ops.append(dict(op="set", key=f"{key}{m}",
                            val=c06.gen_val(rng, kind, n)))
        faults = []
        r = rng.random()
        if r < 0.15:
            faults.append(slow(rng, 12, (5, 20, 80)))
        elif r < 0.25:
            call = rng.choice(("create", "open", "trunc", "mmap"))
            faults.append(dict(kind="errno", call=call, nth=rng.randint(1, 3),
                               times=rng.choice((1, 1, 2)),
                               errno=c06.err_for(rng, call)))
        procs.append(dict(ops=ops, faults=faults, make=m < nmake,
                          cleanup=m < nmake and rng.random() < 0.4,
                          tries=rng.choice((1, 1, 2, 3)),
                          fallback=rng.random() < 0.5))
    if len(procs) > 1 and rng.random() < 0.1:
        # creating takes long, and meanwhile somebody sets the clock
        p, q = rng.sample(procs, 2)
        p["faults"] = [dict(kind="pause", call="trunc", nth=rng.randint(1, 3),
                            secs=rng.choice((0.3, 1, 3)))]
        q["faults"] = [dict(kind="jump", at=rng.randint(1, 12),
                            secs=rng.choice((3600, 20, -20)))]
    elif nmake > 1 and rng.random() < 0.1:
        p = procs[rng.randrange(nmake)]
        p["faults"] = [dict(kind="kill", at=rng.randint(1, 10))]
    return dict(cfg=dict(kind=kind, pre=pre, mode="race"), setup=setup,
                procs=procs, sched=gen_sched(rng, 30 * len(procs)))


class Racer(c06.Subject):
    """a handle whose construction is the operation of interest"""

    def __init__(self, kind, create, cleanup=False):
        from dustgoggles.codex import implements as im
        self.kind = kind
        if kind in ("notepad", "notemeta"):
            self.o = im.Notepad("subj", create=create,
                                cleanup_on_exit=cleanup,
                                index_type=im.TagIndex if kind == "notepad"
                                else im.MetaTagIndex)
        else:
            cls = dict(grid=im.GridPaper, tag=im.TagIndex,
                       meta=im.MetaTagIndex)[kind]
            self.o = cls("subj", create=create, cleanup_on_exit=cleanup)


def calm(p):
    """no more faults for this process"""
    p.windows, p.call_faults, p.at_faults = [], {}, {}


def race(plan, run):
    cfg, k = plan["cfg"], run.k
    kind = cfg["kind"]
    truth, winner = {}, []
    errors = any(f["kind"] == "errno" for sp in plan["procs"]
                 for f in sp["faults"])

    def construct(p, create, cleanup=False):
        def go():
            p.calls = {}
            return Racer(kind, create, cleanup)
        o = run.h.do("make" if create else "open", (), go)
        obj, o.value = o.value, "object" if o.ok else None
        return o, obj

    def fill(s, ops):
        for op in ops:
            s.store(op["key"], op["val"])
            truth[str(op["key"])] = [op["val"]]

    if cfg["pre"]:
        def prepare(p):
            o, s = construct(p, True)
            if not o.ok:
                raise Violation("make-error", f"{o!r}")
            fill(s, plan["setup"])
        run.solo(prepare, "making the object")

    def body(spec):
        def fn(p):
            try:
                act(p, spec)
            except Violation as v:
                run.fail(v.cls, v.msg)
        return fn

    def act(p, spec):
        s = None
        if spec["make"]:
            o, s = construct(p, True, spec["cleanup"])
            calm(p)
            if s is not None:
                winner.append((p, spec, o.ret))
            elif o.exc == "FileExistsError":
                k.probe("lost the race")
            elif o.exc not in ("OSError", "PermissionError") or \
                    not sum(k.fault_counts.values()):
                raise Violation("make-error", f"{o!r}")
            else:
                k.probe("creation failed")
                return
        if s is None and (not spec["make"] or spec["fallback"]):
            for _ in range(spec["tries"]):
                o, s = construct(p, False)
                calm(p)
                if s is not None:
                    break
                if o.exc == "FileNotFoundError" or o.exc == "OSError" \
                        and k.fault_counts or \
                        killed(k):      # left half-made for good
                    k.sleep(0.01)
                    continue
                raise Violation("open-error", f"{o!r}")
        if s is None:
            return
        # (an object opened while its creation was failing is of no use)
        if not killed(k) and (cfg["pre"] or not errors or any(
                w[0] is p or w[2] <= o.inv for w in winner)):
            fill(s, spec["ops"])
        if spec["make"] and spec["cleanup"] and any(
                w[0] is p for w in winner):
            # its exit removes the object: let the others finish first
            while any(q.state != "done" for q in k.procs if q is not p):
                k.sleep(0.01)
        else:
            listed = s.keys()
            odd = [x for x in listed if x not in known]
            if odd or len(set(listed)) != len(listed):
                raise Violation("ghost", f"keys {listed}")

    known = {str(op["key"]) for sp in plan["procs"] for op in sp["ops"]} | {
        str(op["key"]) for op in plan["setup"]}
    for spec in plan["procs"]:
        k.spawn(body(spec), faults=spec["faults"])
    run.go()
    run.require_end("creating, opening and using the object")
    for p in k.procs:
        if p.space.exit_errors:
            raise Violation("exit-error", f"process {p.pid} exits with "
                            f"{p.space.exit_errors}")
    judge_race(run, cfg["pre"])
    if killed(k):
        return
    made = cfg["pre"] or bool(winner)
    gone = any(sp["cleanup"] for _, sp, _ in winner)

    def final(p):
        if made and not gone:
            o, s = construct(p, False)
            if s is None:
                raise Violation("lost", f"at the end: {o!r}")
            c06.verify(run, kind, s, truth, "at the end")
        else:
            left = run.w.blocks("subj")
            if left:
                raise Violation("left-behind", f"nobody owns {left}")
            o, s = construct(p, False)
            if o.exc != "FileNotFoundError":
                raise Violation("opened-missing", f"{o!r}")
            if run.w.blocks("subj"):
                raise Violation("left-behind", f"{o!r} left "
                                f"{run.w.blocks('subj')}")
            o, s = construct(p, True)
            if s is None:
                raise Violation("make-error", f"nothing is there, but {o!r}")
            c06.verify(run, kind, s, {}, "of the new object")
        s.close()
    run.solo(final, "the final pass")
    if run.w.blocks("subj"):
        raise Violation("left-behind", f"after closing, "
                        f"{run.w.blocks('subj')} remain")


def killed(k):
    return k.fault_counts.get("kill", 0)


def judge_race(run, pre):
    ops = [o for o in run.h.ops if o.kind in ("make", "open")]
    makes = [o for o in ops if o.kind == "make"]
    wins = [o for o in makes if o.ok]
    if len(wins) > 1:
        raise Violation("two-creators", f"{wins}")
    # what may have made the object exist for a while
    some = [o for o in makes if o.ok or o.ret is None or
            o.exc in ("OSError", "PermissionError")]
    if not pre and makes and not wins and not any(
            o.ret is None or o.exc in ("OSError", "PermissionError")
            for o in makes):
        raise Violation("no-creator", f"{makes}")
    for o in ops:
        if o.ret is None or pre and o in wins:
            continue
        if o.exc == "FileExistsError" or o.kind == "open" and o.ok:
            if not pre and not any(m.inv < o.ret for m in some
                                   if m is not o):
                raise Violation("outcome", f"{o!r}, but nobody made it")
        if o.exc == "FileNotFoundError" and any(
                m.ok and m.ret < o.inv for m in makes):
            raise Violation("outcome", f"{o!r} although {wins}")


# ------------------------------------------------- exclusive stores
def gen_store(rng):
    kind = rng.choice(("notepad", "notepad", "notemeta", "grid",
                       "mnemonic"))
    nproc = rng.choice((1, 2, 2, 3, 4))
    keys = names(rng, rng.choice((1, 1, 2, 3)))
    n = 0
    setup = []
    for key in keys:
        if rng.random() < 0.3:
            n += 1
            setup.append(dict(op="set", key=key,
                              val=c06.gen_val(rng, kind, n)))
    procs = []
    # nothing but exclusive stores (the codec functions take no lock)
    calm_keys = rng.random() < 0.4 or kind == "mnemonic"
    for m in range(nproc):
        ops = []
        for _ in range(rng.randint(1, 4 if nproc > 1 else 8)):
            key = rng.choice(keys)
            r = rng.random()
            n += 1
            if r < 0.5 or calm_keys and r < 0.75:
                ops.append(dict(op="set", key=key, excl=True,
                                val=c06.gen_val(rng, kind, n)))
            elif r < 0.6 and not calm_keys:
                ops.append(dict(op="set", key=key,
                                val=c06.gen_val(rng, kind, n)))
            elif r < 0.7 and not calm_keys:
                ops.append(dict(op="del", key=key))
            elif r < 0.8 and kind != "mnemonic":
                ops.append(dict(op="reserved", key=rng.choice(RESERVED),
                                how=rng.choice(("set", "excl", "item",
                                                "del", "del")),
                                form=rng.choice(("str", "str", "path")),
                                val=c06.gen_val(rng, kind, n)))
            else:
                ops.append(dict(op="get", key=key))
        faults = []
        if rng.random() < 0.15:
            faults.append(slow(rng, 60, (10, 40, 150)))
        procs.append(dict(ops=ops, faults=faults,
                          thread=nproc > 1 and rng.random() < 0.15))
    return dict(cfg=dict(kind=kind, mode="store"), setup=setup, procs=procs,
                max_steps=20000, sched=gen_sched(rng, 150 * nproc))


class Plain:
    """the codec functions by themselves"""

    def __init__(self):
        from dustgoggles.codex import codecs, memutilz
        self.memorize, self.remember = codecs.generic_mnemonic_factory()
        self.encode, self.decode = codecs.pickle_codec_factory()
        self.delete = memutilz.delete_block

    def set(self, key, value, exists_ok=True):
        self.memorize(value, f"subj_{key}", exists_ok, self.encode)

    def __delitem__(self, key):
        self.delete(f"subj_{key}")

    def __getitem__(self, key):
        return self.remember(f"subj_{key}", True, self.decode)


def handle(kind, create):
    return Plain() if kind == "mnemonic" else c06.Subject(kind, create).o


def store(plan, run):
    cfg, k = plan["cfg"], run.k
    kind = cfg["kind"]
    taken = "FileExistsError" if kind == "mnemonic" else "KeyError"
    absent = ("FileNotFoundError",) if kind == "mnemonic" else ("KeyError",)

    def act(p, s, op):
        key = op["key"]
        if op["op"] == "set":
            v = c06.value_of(kind, op["val"])
            if op.get("excl"):
                o = run.h.do("set", (key, op["val"], "excl"),
                             lambda: s.set(key, v, exists_ok=False))
            else:
                o = run.h.do("set", (key, op["val"]), lambda: s.set(key, v))
            if not o.ok and not (op.get("excl") and o.exc == taken):
                raise Violation("set-error", f"{o!r}")
        elif op["op"] == "del":
            o = run.h.do("del", (key,), lambda: s.__delitem__(key))
            if not o.ok and o.exc not in absent:
                raise Violation("del-error", f"{o!r}")
        elif op["op"] == "get":
            run.h.do("get", (key,), lambda: s[key])
        else:
            if op["form"] == "path":
                key = pathlib.PurePosixPath(key)
            v = c06.value_of(kind, op["val"])
            fn = dict(set=lambda: s.set(key, v),
                      excl=lambda: s.set(key, v, exists_ok=False),
                      item=lambda: s.__setitem__(key, v))
            fn["del"] = lambda: s.__delitem__(key)
            o = run.h.do("reserved", (op["how"], str(key)), fn[op["how"]])
            if str(key).startswith("index"):
                if o.ok or o.exc != "KeyError":
                    raise Violation("reserved", f"{o!r} should be refused")
            elif op["how"] == "del":
                pass            # an ordinary key, maybe there, maybe not
            elif not o.ok and op["how"] != "excl":
                raise Violation("set-error", f"{o!r}")

    def prepare(p):
        s = handle(kind, True)
        for op in plan["setup"]:
            act(p, s, op)
    run.solo(prepare, "filling")
    shared = [None, None]

    def body(spec, s):
        def fn(p):
            mine = s if s is not None else handle(kind, False)
            try:
                for op in spec["ops"]:
                    act(p, mine, op)
            except Violation as v:
                run.fail(v.cls, v.msg)
        return fn

    for spec in plan["procs"]:
        if spec["thread"]:
            if shared[0] is None:
                shared[0] = handle(kind, False)
            p = k.spawn(body(spec, shared[0]), faults=spec["faults"],
                        space=shared[1])
            shared[1] = p.space
        else:
            k.spawn(body(spec, None), faults=spec["faults"])
    run.go()
    run.require_end("stores")
    rest = []

    def final(p):
        s = handle(kind, False)
        rest.append(k.stamp())
        keys = None if kind == "mnemonic" else list(s.keys())
        for key in sorted({str(o.args[0]) for o in run.h.ops
                           if o.kind in ("set", "del", "get")}):
            act(p, s, dict(op="get", key=key))
        return keys
    keys = run.solo(final, "reading at rest")
    ops = run.h.ops
    logs = {}
    for o in ops:
        if o.kind in ("set", "del"):
            log = logs.setdefault(str(o.args[0]), [])
            if o.ok:
                log.append(o)
    logs = {key: c05.Log(v) for key, v in logs.items()}
    none = c05.Log([])
    for o in ops:
        if o.kind != "get":
            continue
        log = logs.get(str(o.args[0]), none)
        busy = log.overlapped(o.inv, o.ret)
        if o.ok:
            if not any(c06.match(kind, s.args[1], o.value)
                       for s in log.values(o.inv, o.ret)) and not (
                           busy and kind == "grid"):
                raise Violation("wrong-value", f"{o!r}; stores {log.ups}")
        elif not busy and not (o.exc in absent and
                               log.may_be_missing(o.inv)):
            raise Violation("read-error", f"{o!r}; updates {log.ups}")
    c05.judge_updates(run, {str(o.args[0]): o for o in ops
                            if o.kind == "get" and o.inv > rest[0]},
                      lambda o, v: c06.match(kind, o.args[1], v))
    if keys is not None:
        finals = {str(o.args[0]) for o in ops
                  if o.kind == "get" and o.inv > rest[0] and o.ok}
        listed = [x for x in keys if x not in ("hash",)]
        if sorted(listed) != sorted(finals - {"hash"}):
            raise Violation("listing", f"keys {keys}, readable {finals}")


def execute(plan, chooser=None):
    with SimRun(plan, chooser) as run:
        (race if plan["cfg"]["mode"] == "race" else store)(plan, run)
    return run.out
