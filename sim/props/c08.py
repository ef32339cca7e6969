"""C08 what is left after closing, clearing or exiting."""
import pickle

from sim.arrays import gen_array, same_bytes
from sim.base import SimRun, Violation, gen_sched, gen_value, given, names, slow
from sim.fs import FS
from sim.props.c06 import Subject, match, value_of

ID = "C08"
RULE = ("each run: 1-4 processes store, replace, remove and read entries of "
        "one notepad, grid paper, index or set of stickies in any order, all "
        "on the same keys; then some of them clear it, close it (once or "
        "twice, dumping or not, with dumps failing) or exit with "
        "cleanup_on_exit, one after another or at once; afterwards no block "
        "of it may exist")
REAL = ["dustgoggles.codex.implements.* close, clear, exit hooks",
        "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "file system below the io/os calls (in memory)", "exit hooks",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker", "nobody uses the "
               "object while it is being closed, except to close it as well",
               "no process is killed and no shared-memory call fails"]
QUICK, THOROUGH = 8000, 250000
KINDS = ("notepad", "notepad", "notemeta", "grid", "grid", "tag", "meta",
         "sticky")


def gen_val(rng, kind, n):
    if kind == "grid":
        return gen_array(rng, n)
    return gen_value(rng, n) if kind != "meta" else ["m", n, rng.randrange(40)]


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    nproc = rng.choice((1, 1, 2, 2, 3, 4))
    keys = names(rng, rng.choice((1, 2, 3, 5, 12)), prefix="subj")
    n, setup = 0, []
    for k in keys:
        if rng.random() < 0.5:
            n += 1
            setup.append(dict(op="set", key=k, val=gen_val(rng, kind, n)))
    procs = []
    for m in range(nproc):
        ops = []
        for _ in range(rng.choice((0, 2, 4, 8))):
            r, k = rng.random(), rng.choice(keys)
            n += 1
            if r < 0.5:
                ops.append(dict(op="set", key=k, val=gen_val(rng, kind, n),
                                new=rng.random() < 0.15,
                                keep=rng.random() < 0.2))
            elif r < 0.8:
                ops.append(dict(op="del", key=k))
            else:
                ops.append(dict(op="get", key=k, keep=rng.random() < 0.4))
        faults = []
        if rng.random() < 0.1:
            faults.append(slow(rng, 60, (10, 40, 150)))
        procs.append(dict(ops=ops, faults=faults,
                          cleanup=rng.random() < 0.5, end=[]))
    for p in procs:
        r = rng.random()
        if kind in ("notepad", "notemeta", "grid") and r < 0.25:
            p["end"].append("clear")
        if r < 0.4:
            p["end"].append("close")
        if r < 0.1 or r > 0.93:
            p["end"].append("close")
    dump = None
    if kind in ("notepad", "notemeta", "grid") and rng.random() < 0.25:
        dump = dict(fault=None if rng.random() < 0.3 else dict(
            kind="errno", call="f.open" if kind == "grid" else rng.choice(
                ("f.open", "f.write")), nth=rng.randint(1, 4),
            errno=rng.choice(("ENOSPC", "EIO", "EACCES"))))
    cfg = dict(kind=kind, together=rng.random() < 0.5, dump=dump)
    return dict(cfg=cfg, setup=setup, procs=procs, max_steps=30000,
                sched=gen_sched(rng, 200 * nproc))


def simpler(plan):
    for i, p in enumerate(plan["procs"]):
        for end in (p["end"][1:], p["end"][:1], []):
            if end != p["end"]:
                q = dict(plan, procs=[dict(x) for x in plan["procs"]])
                q["procs"][i]["end"] = end
                yield q


class Handle(Subject):
    def __init__(self, kind, create, cleanup):
        from dustgoggles.codex import implements as im
        self.kind, self.kept = kind, []
        self.cleanup = cleanup
        if kind == "sticky":
            self.o, self.notes = None, {}
            return
        kw = dict(create=create, cleanup_on_exit=cleanup)
        if kind in ("notepad", "notemeta"):
            self.o = im.Notepad("subj", index_type=im.TagIndex if kind ==
                                "notepad" else im.MetaTagIndex, **kw)
        else:
            self.o = dict(grid=im.GridPaper, tag=im.TagIndex,
                          meta=im.MetaTagIndex)[kind]("subj", **kw)

    def put(self, op, pid):
        v = value_of(self.kind, op["val"])
        if self.kind == "sticky":
            from dustgoggles.codex.implements import Sticky
            a = f"subj_{pid}_{op['key']}"
            if a in self.notes:
                self.notes[a].stick(v)
            else:
                self.notes[a] = Sticky.note(v, a,
                                            cleanup_on_exit=self.cleanup)
        elif self.kind == "tag":
            self.o.add(given(op["key"]), exists_ok=not op.get("new"))
        elif self.kind == "meta":
            self.o.add(given(op["key"]), v, exists_ok=not op.get("new"))
        elif op.get("keep") and self.kind == "grid":
            self.o.__setitem__(given(op["key"]), v, not op.get("new"), True)
        else:
            self.o.set(given(op["key"]), v, exists_ok=not op.get("new"))

    def drop(self, op, pid):
        if self.kind == "sticky":
            a = f"subj_{pid}_{op['key']}"
            self.notes[a].pull()
            del self.notes[a]
        elif self.kind in ("tag", "meta"):
            self.o.remove(given(op["key"]))
        else:
            del self.o[given(op["key"])]

    def look(self, op):
        if self.kind == "sticky":
            return
        if self.kind == "grid" and op["keep"]:
            self.kept.append(self.o.get(op["key"], copy=False))
        elif self.kind in ("tag", "meta"):
            self.o.check(op["key"])
        else:
            self.o.get(op["key"])


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    kind = cfg["kind"]
    with SimRun(plan, chooser) as run:
        k = run.k
        fs = run.w.fs = FS(k, relative=True)

        def prepare(p):
            s = Handle(kind, True, False)
            for op in plan["setup"]:
                if kind != "sticky":
                    s.put(op, 0)
        run.solo(prepare, "filling")
        if not plan["setup"]:
            k.probe("starts empty")
        handles = {}

        def work(m, spec):
            def fn(p):
                s = Handle(kind, False, spec["cleanup"])
                for op in spec["ops"]:
                    if op["op"] == "set":
                        o = run.h.do("set", (op["key"], op["val"]),
                                     lambda: s.put(op, m))
                        bad = not o.ok and not (op["new"] and o.exc in (
                            "KeyError", "FileExistsError"))
                    elif op["op"] == "del":
                        o = run.h.do("del", (op["key"],),
                                     lambda: s.drop(op, m))
                        bad = not o.ok and o.exc not in (
                            "KeyError", "FileNotFoundError")
                    else:
                        o = run.h.do("get", (op["key"],), lambda: s.look(op))
                        o.value = None
                        bad = False
                    if bad:
                        run.fail("op-error", f"{o!r}")
                # the process lives on: its exit hooks run later
                handles[m] = (s, p.space, list(p.space.atexit))
                p.space.atexit.clear()
            return fn

        for m, spec in enumerate(plan["procs"]):
            k.spawn(work(m, spec), faults=spec["faults"])
        run.go()
        run.require_end("storing and removing")
        if cfg["dump"]:
            dump_all(run, fs, cfg, kind)
            return run.out

        def finish(m, spec):
            s, space, hooks = handles[m]

            def fn(p):
                p.space.atexit[:] = hooks
                for what in spec["end"]:
                    if kind == "sticky":
                        for a, n in sorted(s.notes.items()):
                            o = run.h.do("close", (a,), n.close)
                            if not o.ok:
                                run.fail("close-error", f"{o!r}")
                        s.notes.clear()
                        continue
                    o = run.h.do(what, (), getattr(s.o, what))
                    if not o.ok:
                        run.fail(f"{what}-error", f"{o!r}")
                    elif what == "clear" and not cfg["together"]:
                        usable(run, kind, s)
                s.kept.clear()
            return fn, space

        ends = [(m, sp) for m, sp in enumerate(plan["procs"])
                if sp["end"] or sp["cleanup"]]
        rest = [(m, sp) for m, sp in enumerate(plan["procs"])
                if not (sp["end"] or sp["cleanup"])]
        # processes that merely exit take nothing with them
        before = run.w.blocks("subj")
        for m, sp in rest:
            k.spawn(finish(m, sp)[0], space=handles[m][1])
            run.go()
            run.require_end("exiting")
        if run.w.blocks("subj") != before:
            raise Violation("exit-removes", f"an exit without cleanup changed "
                            f"{before} to {run.w.blocks('subj')}")
        for m, sp in ends:
            fn, space = finish(m, sp)
            k.spawn(fn, space=space)
            if not cfg["together"]:
                run.go()
                run.require_end("closing")
                if kind != "sticky" and (
                        sp["cleanup"] or "close" in sp["end"]):
                    gone(run, f"process {m} "
                              f"{sp['end'] or 'exits with cleanup'}")
        run.go()
        run.require_end("closing")
        for p in k.procs:
            if p.space.exit_errors:
                raise Violation("exit-error", f"{p.space.exit_errors}")
        if kind == "sticky":
            left = [f"subj_{m}_{op['key']}" for m, sp in
                    enumerate(plan["procs"]) for op in sp["ops"]
                    if sp["cleanup"] or sp["end"]]
            left = [a for a in run.w.blocks("subj") if a in left]
            if left:
                raise Violation("left-behind", f"{left}")
        elif any(sp["cleanup"] or "close" in sp["end"] for _, sp in ends):
            gone(run, "all is closed")
        else:
            def last(p):
                s = Handle(kind, False, False)
                o = run.h.do("close", (), s.o.close)
                if not o.ok:
                    run.fail("close-error", f"{o!r}")
            run.solo(last, "closing")
            gone(run, "a fresh process closed it")
    return run.out


def gone(run, when):
    left = run.w.blocks("subj")
    if left:
        raise Violation("left-behind", f"after {when}: {left}")


def usable(run, kind, s):
    got = s.keys()
    if got:
        run.fail("clear-keeps", f"keys after clear(): {got}")
    for n, key in enumerate(("new", "newer")):
        d = dict(tag=9000 + n, dtype="<i4", shape=[3], layout="C") \
            if kind == "grid" else ["small", 9000 + n, 1]
        o = run.h.do("set", (key, d), lambda: s.store(key, d))
        q = run.h.do("get", (key,), lambda: s.read(key))
        if not o.ok or not q.ok or not match(kind, d, q.value):
            run.fail("clear-breaks", f"{o!r} {q!r}")
    if sorted(s.keys()) != ["new", "newer"]:
        run.fail("clear-breaks", f"keys {s.keys()}")


def dump_all(run, fs, cfg, kind):
    """close with dump=True; the dump of some entry fails"""
    fault = cfg["dump"]["fault"]
    values = {}

    def before(p):
        s = Handle(kind, False, False)
        for key in s.keys():
            values[key] = s.read(key)
    run.solo(before, "reading before dumping")
    box = []

    def body(p):
        s = Handle(kind, False, False)
        o = run.h.do("dump", (), lambda: s.o.close(dump=True))
        box.append(o)
    p = run.k.spawn(body, faults=[fault] if fault else [])
    run.go()
    run.require_end("closing with dump=True")
    o = box[0]
    failed = bool(fault) and run.k.fault_counts.get(fault["errno"], 0) > 0
    if o.ok == failed or not o.ok and o.exc not in (
            "OSError", "PermissionError"):
        raise Violation("dump-outcome", f"{o!r}, fault fired: {failed}")

    def dumped(key):
        raw = fs.content("/simfs/cwd/" + f"subj_{key}".replace(".", "_"))
        if raw is None:
            return False
        if kind == "grid":
            return same_bytes(raw, values[key])
        try:
            return repr(pickle.loads(raw)) == repr(values[key])
        except Exception:
            return False

    if not failed:
        lost = [key for key in values if not dumped(key)]
        if lost:
            raise Violation("dump-lost", f"closed, but {lost} not dumped")
        if run.w.blocks("subj"):
            raise Violation("left-behind", f"{run.w.blocks('subj')}")
    else:
        def after(p):
            s = Handle(kind, False, False)
            keys = s.keys()
            for key in sorted(values):
                if dumped(key):
                    continue
                q = run.h.do("get", (key,), lambda: s.read(key))
                if key not in keys or not q.ok or \
                        repr(q.value) != repr(values[key]):
                    run.fail("dump-lost", f"{key!r} was neither dumped nor "
                             f"kept: listed {keys}, {q!r}")
        run.solo(after, "reading after a failed dump")

    def again(p):
        if failed:
            s = Handle(kind, False, False)
            q = run.h.do("dump", (), lambda: s.o.close(dump=True))
            if not q.ok:
                run.fail("dump-outcome", f"repeated: {q!r}")
            lost = [key for key in values if not dumped(key)]
            if lost:
                run.fail("dump-lost", f"closed, but {lost} not dumped")
    run.solo(again, "closing again")
    gone(run, "closing with dump=True")
