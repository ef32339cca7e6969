"""C27 trackers that write one log at the same time."""
import json

from sim.base import LIB, SimRun, Violation, gen_sched
from sim.fs import FS

ID = "C27"
RULE = ("each run: 2-4 processes or threads, each with a tracker of its own "
        "or sharing one, track and dump to the same log (or to two) at once; "
        "some clear it, are killed, interrupted, stalled or meet failing "
        "file operations; after every change of a log and at the end its "
        "entries are compared with the dumps begun and completed")
REAL = ["dustgoggles.tracker.Tracker", "io buffering, pathlib, json (stdlib)"]
STUB = ["file system below the io/os calls (in memory)", "clock",
        "processes (scheduled threads)"]
ASSUMPTIONS = ["a killed process loses its buffers but not what reached "
               "write(2); no power loss",
               "an entry may be lost to a dump or clear that overlapped its "
               "own dump (there is no lock)"]
QUICK, THOROUGH = 14000, 400000
DIR = "/simfs/logs"


def gen(rng, i, tier):
    nproc = rng.choice((2, 2, 3, 4))
    nlogs = rng.choice((1, 1, 1, 2))
    how = rng.choice(("processes", "processes", "threads", "shared"))
    clears = rng.random() < 0.25
    procs, n = [], 0
    for m in range(nproc):
        ops = []
        for _ in range(rng.choice((1, 2, 3, 5))):
            for _ in range(rng.choice((1, 1, 2))):
                n += 1
                ops.append(dict(op="track", n=n, pad=rng.choice(
                    (0, 0, 30, 9000))))
            ops.append(dict(op="dump"))
            if clears and rng.random() < 0.25:
                ops.append(dict(op="clear"))
        faults, r = [], rng.random()
        if how == "processes" and r < 0.2:
            faults.append(dict(kind="kill", at=rng.randint(1, 40)))
        elif r < 0.35:
            faults.append(dict(kind="errno", call=rng.choice(
                ("f.open", "f.write", "f.rename", "f.read")),
                nth=rng.randint(1, 6), times=rng.choice((1, 1, 2, 5)),
                errno=rng.choice(("ENOSPC", "EIO", "EDQUOT", "EMFILE"))))
        elif r < 0.45:
            faults.append(dict(kind="short", call="f.write", short=round(
                rng.random(), 2) or 0.5, nth=rng.randint(1, 6)))
        elif r < 0.55:
            faults.append(dict(kind="stall", at=rng.randint(1, 40),
                               **{"for": rng.choice((5, 20, 60))}))
        elif how != "processes" and r < 0.6:
            faults.append(dict(kind="interrupt", at=rng.randint(1, 40)))
        procs.append(dict(ops=ops, faults=faults, log=rng.randrange(nlogs)))
    cfg = dict(how=how, logs=nlogs, tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0.8)), pre=rng.random() < 0.5,
               lines=how != "processes" and rng.random() < 0.4)
    return dict(cfg=cfg, procs=procs, max_steps=60000,
                sched=gen_sched(rng, 60 * nproc))


def a_function():
    pass


class Dump:
    """one call of dump: what it must and may have written"""

    def __init__(self, owner, must):
        self.owner, self.must, self.may = owner, must, None
        self.begun, self.ended, self.ok = None, None, False

    def fits(self, entry, open_):
        may = self.may if self.may is not None else open_
        got = [r["n"] for r in entry]
        return set(self.must) <= set(got) <= set(may)

    def __repr__(self):
        return f"dump[{self.begun}-{self.ended}] of {self.must}"


def pair(left, right, fits):
    """greatest matching of left to right: what of left stays without"""
    mate = {}

    def place(a, seen):
        for b in range(len(right)):
            if b not in seen and fits(left[a], right[b]):
                seen.add(b)
                if b not in mate or place(mate[b], seen):
                    mate[b] = a
                    return True
        return False
    return [left[a] for a in range(len(left)) if not place(a, set())]


def execute(plan, chooser=None):
    from pathlib import Path
    from dustgoggles.tracker import Tracker
    cfg = plan["cfg"]
    with SimRun(plan, chooser, line_prefix=LIB + "tracker"
                if cfg["lines"] else None) as run:
        k = run.k
        fs = run.w.fs = FS(k, tear=run.w.tear, tear_p=cfg["tear_p"])
        dumps, clears = {}, {}      # per log's path
        tracked = {}                # owner -> [n, ..], as they begin
        faulty = any(s["faults"] for s in plan["procs"])

        def entries(path):
            raw = fs.content(path)
            if raw is None:
                return []
            try:
                got = json.loads(raw.decode())
                assert isinstance(got, list)
                return [e["history"] for e in got]
            except Exception as ex:
                raise Violation("corrupt", f"the log is invalid ("
                                f"{type(ex).__name__}): {raw[:60]!r}..."
                                f"{raw[-120:]!r}")

        def look(path, when):
            if path not in dumps or run.viol:
                return
            try:
                es = entries(path)
                for e in es:
                    for r in e:
                        if set(r) < {"target", "caller", "lineno",
                                     "trackcount", "n", "pad"} or \
                                r["target"] != "a_function" or \
                                r["pad"] != "x" * len(r["pad"]):
                            raise Violation("wrong", f"{when} an entry has "
                                            f"{r}")
                over = pair(es, dumps[path], lambda e, d: d.fits(
                    e, tracked[d.owner]))
                if over:
                    raise Violation("wrong", f"{when} the log has entries of "
                                    f"{[[r['n'] for r in e] for e in over]}, "
                                    f"dumps were {dumps[path]}")
            except Violation as v:
                run.fail(v.cls, v.msg)

        fs.on_change = lambda path: look(path, "while dumping")

        def new(log):
            t = Tracker(f"t{log}", outdir=Path(DIR))
            dumps.setdefault(str(t.outpath), [])
            clears.setdefault(str(t.outpath), [])
            return t

        def act(op, t, owner, path):
            if op["op"] == "track":
                tracked[owner].append(op["n"])
                o = run.h.do("track", (op["n"],), lambda: t.track(
                    a_function, n=op["n"], pad="x" * op["pad"]))
                if o.ok:
                    # (a clear of the same tracker may have undone it)
                    if not any((c[1] or o.ret) > o.inv and c[3] == owner
                               for c in clears.get(path, ())):
                        done[owner].append(op["n"])
                elif o.exc != "KeyboardInterrupt":
                    run.fail("track-error", f"{o!r}")
                return o
            if op["op"] == "clear":
                now = [k.stamp(), None, False, owner]
                clears[path].append(now)
                if cfg["how"] == "shared":
                    for d in dumps[path]:
                        if d.owner == owner and d.ended is None:
                            d.must = []
                o = run.h.do("clear", (), t.clear)
                now[1:3] = o.ret, o.ok
                done[owner] = []
            else:
                d = Dump(owner, [] if any(c[1] is None and c[3] == owner
                                          for c in clears[path])
                         else list(done[owner]))
                d.begun = k.stamp()
                dumps[path].append(d)
                o = run.h.do("dump", (), t.dump)
                d.ended, d.ok, d.may = o.ret, o.ok, list(tracked[owner])
                if o.ok:
                    k.probe("dump done")
            if not o.ok and not (faulty and o.exc in (
                    "OSError", "KeyboardInterrupt")):
                run.fail(op["op"] + "-error", f"{o!r}")
            return o

        done = {}

        def life(m, spec, shared):
            def fn(p):
                o = run.h.do("new", (), lambda: new(spec["log"])
                             ) if shared is None else None
                if o is not None and not o.ok:
                    if not faulty:
                        run.fail("new-error", f"{o!r}")
                    return
                t, owner = (o.value, m) if shared is None else \
                    (shared, "all")
                if o is not None:
                    o.value = None
                tracked.setdefault(owner, [])
                done.setdefault(owner, [])
                for op in spec["ops"]:
                    if run.viol:
                        return
                    act(op, t, owner, str(t.outpath))
                for path in dumps:
                    look(path, "after a process ended")
            return fn

        shared = []

        def first(p):
            if cfg["how"] == "shared":
                shared.append(new(0))
            if cfg["pre"]:
                for log in range(cfg["logs"]):
                    owner = f"pre{log}"
                    tracked[owner], done[owner] = [], []
                    t = new(log)
                    act(dict(op="track", n=-log, pad=0), t, owner, None)
                    act(dict(op="dump"), t, owner, str(t.outpath))
        run.solo(first, "a first dump")
        space = None
        for m, spec in enumerate(plan["procs"]):
            p = k.spawn(life(m, spec, shared[0] if shared else None),
                        faults=spec["faults"], space=space)
            if cfg["how"] != "processes":
                space = p.space
        run.go()
        run.require_end("tracking")
        final(run, plan, fs, dumps, clears, entries, look)

        def last(p):
            for log in range(cfg["logs"]):
                owner = f"last{log}"
                tracked[owner], done[owner] = [], []
                t = new(log)
                path = str(t.outpath)
                before = entries(path)
                act(dict(op="track", n=10000 + log, pad=0), t, owner, path)
                act(dict(op="dump"), t, owner, path)
                look(path, "after a last dump")
                if not run.viol and entries(path)[:-1] != before:
                    run.fail("lost", f"a last dump turned {len(before)} "
                             f"entries into {len(entries(path))}")
        faulty = False
        run.solo(last, "a last dump")
        if not any(p.was_killed for p in k.procs):
            left = [f for f in fs.files if f not in dumps]
            if left:
                raise Violation("left-over", f"files {left}")
        open_ = [h.name for h in fs.unclosed() if not h.owner.was_killed]
        if open_:
            raise Violation("left-open", f"{open_}")
    return run.out


def final(run, plan, fs, dumps, clears, entries, look):
    """what no overlapping dump or clear can have undone is there"""
    inf = float("inf")
    for path, ds in dumps.items():
        look(path, "at the end")
        es = entries(path)

        def overlaps(d, begun, ended):
            return begun < d.ended and (ended or inf) > d.begun

        def spared(d):
            return d.ok and not any(
                q is not d and overlaps(d, q.begun, q.ended) for q in ds
            ) and not any((c[1] or inf) > d.begun for c in clears[path])
        kept = [d for d in ds if spared(d)]
        lost = pair(kept, es, lambda d, e: d.fits(e, d.may))
        if lost:
            raise Violation("lost", f"{lost} completed alone but are not in "
                            f"the log, which has "
                            f"{[[r['n'] for r in e] for e in es]}")
        for c in clears[path]:
            # nobody wrote meanwhile: nothing older is left
            if c[2] and not any(d.begun < c[1] and (d.ended or inf) > c[0]
                                for d in ds):
                old = [d for d in ds if d.ended is not None
                       and d.ended < c[0]]
                new = [d for d in ds if d not in old]
                over = pair(es, new, lambda e, d: d.fits(
                    e, d.may or d.must))
                if over:
                    raise Violation("kept", f"cleared, but entries "
                                    f"{[[r['n'] for r in e] for e in over]} "
                                    "are still there")
