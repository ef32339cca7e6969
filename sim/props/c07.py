"""C07 processes killed in the middle of anything."""
from sim.arrays import gen_array
from sim.base import SimRun, Violation, gen_sched, gen_value, names, slow
from sim.props.c05 import Log
from sim.props.c06 import Subject, match

ID = "C07"
RULE = ("each run: 1-2 of several processes that store, replace, remove and "
        "read entries of one notepad, grid paper, index or set of stickies "
        "are killed before or inside some shared-memory call; survivors read "
        "and list all the while, and afterwards every survivor and a fresh "
        "process lists and reads every entry that nobody was changing")
REAL = ["dustgoggles.codex.implements.*", "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker, which outlives them",
               "each entry has at most one writing process",
               "a killed process that held or waited for the lock may leave "
               "other writers waiting: no property promises them progress"]
QUICK, THOROUGH = 14000, 400000
KINDS = ("notepad", "notepad", "fake", "notemeta", "grid", "grid", "tag",
         "meta", "meta", "sticky")


def gen_val(rng, kind, n):
    if kind == "grid":
        return gen_array(rng, n)
    return gen_value(rng, n) if kind != "meta" else ["m", n, rng.randrange(40)]


def gen_kill(rng, horizon):
    if rng.random() < 0.6:
        return dict(kind="kill", at=rng.randint(1, horizon))
    return dict(kind="kill", nth=rng.randint(1, 14), call=rng.choice(
        ("trunc", "trunc", "write", "write", "tear", "tear", "unlink",
         "unlink", "create", "mmap", "open", "read", "buffer")))


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    nvic = rng.choice((1, 1, 1, 2))
    nsur = rng.choice((0, 1, 1, 2))
    keys = names(rng, rng.choice((2, 3, 4, 6)), prefix="subj")
    writers = nvic + (nsur if rng.random() < 0.3 else 0)
    # who changes which key; -1: nobody
    owner = [rng.choice((-1, *range(writers))) for _ in keys]
    if all(o < 0 for o in owner):
        owner[0] = 0
    n, setup = 0, []
    for k, o in zip(keys, owner):
        if o < 0 or rng.random() < 0.6:
            n += 1
            setup.append(dict(op="set", key=k, val=gen_val(rng, kind, n)))
    rng.shuffle(setup)
    procs = []
    for m in range(nvic + nsur):
        mine = [k for k, o in zip(keys, owner) if o == m]
        ops = []
        for _ in range(rng.choice((1, 2, 3, 5))):
            r = rng.random()
            if mine and r < (0.85 if m < nvic else 0.4):
                k = rng.choice(mine)
                if rng.random() < 0.35:
                    ops.append(dict(op="del", key=k))
                else:
                    n += 1
                    ops.append(dict(op="set", key=k,
                                    val=gen_val(rng, kind, n)))
            elif r < 0.93 or kind in ("fake", "sticky"):
                ops.append(dict(op="get", key=rng.choice(keys)))
            else:
                ops.append(dict(op="list", key=""))
        faults = []
        if m < nvic:
            faults.append(gen_kill(rng, rng.choice((8, 30, 30, 90))))
        elif rng.random() < 0.2:
            faults.append(slow(rng, 30, (10, 40, 150)))
        procs.append(dict(ops=ops, faults=faults))
    cfg = dict(kind=kind, tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0.5, 0.9)))
    return dict(cfg=cfg, setup=setup, procs=procs, max_steps=9000,
                sched=gen_sched(rng, 120 * len(procs)))


def remove(sub, kind, key):
    if kind == "sticky":
        from dustgoggles.codex.implements import Sticky
        Sticky(f"subj_{key}").close()
    elif kind in ("tag", "meta"):
        sub.o.remove(key)
    else:
        del sub.o[key]


class Handle(Subject):
    def __init__(self, kind, create):
        if kind == "fake":
            from dustgoggles.codex import implements as im
            self.kind, self.o = kind, im.Notepad("subj", create=create,
                                                 index_type=im.FakeIndex)
        else:
            super().__init__(kind, create)

    def keys(self):
        return None if self.kind == "fake" else super().keys()


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    kind = cfg["kind"]
    with SimRun(plan, chooser) as run:
        k = run.k
        ended = {}
        k.on_exit.append(lambda p: ended.setdefault(p.pid, k.stamp()))

        def act(p, sub, op):
            key = str(op["key"])
            if op["op"] == "set":
                run.h.do("set", (key, op["val"]),
                         lambda: sub.store(op["key"], op["val"]))
            elif op["op"] == "del":
                run.h.do("del", (key,),
                         lambda: remove(sub, kind, op["key"]))
            elif op["op"] == "get":
                run.h.do("get", (key,), lambda: sub.read(op["key"]))
            else:
                run.h.do("list", (), sub.keys)

        def prepare(p):
            s = Handle(kind, True)
            for op in plan["setup"]:
                act(p, s, op)
        run.solo(prepare, "filling")
        handles = []

        def body(spec):
            def fn(p):
                s = Handle(kind, False)
                for op in spec["ops"]:
                    act(p, s, op)
                handles.append((p.pid, s))
            return fn

        for spec in plan["procs"]:
            k.spawn(body(spec), faults=spec["faults"])
        run.go()
        killed = k.fault_counts.get("kill", 0)
        for o in run.h.ops:
            if o.ret is None and o.pid in ended and (
                    not killed or o.kind in ("get", "list")
                    and not k.procs[o.pid - 1].was_killed):
                raise Violation("blocked", f"{o!r} never ends")
        logs = history(run)
        inflight = {o.args[0] for o in run.h.ops
                    if o.ret is None and o.kind in ("set", "del")}
        judge(run, kind, logs, ended)

        keys = sorted(set(logs) | {str(op["key"]) for sp in plan["procs"]
                                   for op in sp["ops"] if op["key"] != ""})

        def look(sub):
            def fn(p):
                listed = sub.keys() if sub else None
                s = sub or Handle(kind, False)
                if sub is None:
                    listed = s.keys()
                end = k.stamp()
                if listed is not None and len(set(listed)) != len(listed):
                    run.fail("duplicate", f"after the kill: {listed}")
                if listed is not None and set(listed) - set(logs):
                    run.fail("ghost", f"after the kill: {listed}")
                for key in keys:
                    if key in inflight:
                        continue
                    log = logs.get(key, Log([]))
                    there = not log.may_be_missing(end)
                    if listed is not None and (key in listed) != there:
                        run.fail("listing", f"after the kill {key!r} is "
                                 f"{'' if key in listed else 'not '}listed "
                                 f"in {listed}: {log.ups}")
                    o = run.h.do("look", (key,), lambda: s.read(key))
                    vals = log.values(o.inv, o.ret)
                    if there and not (o.ok and any(
                            matches(kind, v.args[1], o.value) for v in vals)):
                        run.fail("unreadable", f"after the kill: {o!r}, "
                                 f"stored {vals}")
                    if not there and o.ok and o.value not in (None, False):
                        run.fail("ghost", f"after the kill: {o!r}: {log.ups}")
            return fn
        for pid, sub in sorted(handles, key=lambda h: h[0]):
            run.solo(look(sub), "reading by a survivor")
        run.solo(look(None), "reading by a fresh process")
    return run.out


def matches(kind, desc, got):
    return match("notepad" if kind == "fake" else kind, desc, got)


def history(run):
    ups = {}
    for o in run.h.ops:
        if o.kind in ("set", "del") and o.ret is not None and not o.ok \
                and run.k.fault_counts.get("kill"):
            # a lock left behind by a killed process may be unusable
            if o.exc not in ("KeyError", "FileNotFoundError"):
                o.ret = None
        if o.kind == "set" and o.ret is not None and not o.ok:
            raise Violation("set-error", f"{o!r}")
        if o.kind == "del" and o.ret is not None and not o.ok:
            if o.exc not in ("KeyError", "FileNotFoundError"):
                raise Violation("del-error", f"{o!r}")
            continue
        if o.kind in ("set", "del"):
            ups.setdefault(o.args[0], []).append(o)
    return {key: Log(v) for key, v in ups.items()}


def judge(run, kind, logs, ended):
    none = Log([])
    for o in run.h.ops:
        if o.ret is None:
            continue
        if o.kind == "get":
            log = logs.get(o.args[0], none)
            if log.overlapped(o.inv, o.ret):
                continue
            if not log.may_be_missing(o.inv):
                vals = log.values(o.inv, o.ret)
                if not (o.ok and any(matches(kind, v.args[1], o.value)
                                     for v in vals)):
                    raise Violation("unreadable", f"{o!r}, stored {vals}")
        if o.kind == "list":
            if not o.ok:
                raise Violation("list-error", f"{o!r}")
            got = o.value
            if got is None:
                continue
            if len(set(got)) != len(got):
                raise Violation("duplicate", f"{o!r}")
            if set(got) - set(logs):
                raise Violation("ghost", f"{o!r}")
            for key, log in logs.items():
                if key not in got and not log.overlapped(o.inv, o.ret) \
                        and not log.may_be_missing(o.inv):
                    raise Violation("unlisted", f"{o!r} lacks {key!r}")
