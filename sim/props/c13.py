"""C13 the tracker's log file."""
import copy
import datetime as dt
import json

from sim.base import SimRun, Violation, gen_sched
from sim.fs import FS

ID = "C13"
RULE = ("each run: a sequence of processes each make trackers on one or two "
        "log files and track, annotate, pause, dump and clear, while file "
        "operations fail, fall short, meet a full disk or are where the "
        "process is killed; after every change of a log file and after every "
        "operation its contents are compared with the completed dumps")
REAL = ["dustgoggles.tracker.Tracker", "io buffering, pathlib, json (stdlib)"]
STUB = ["file system below the io/os calls (in memory)", "clock",
        "processes (scheduled threads)"]
ASSUMPTIONS = ["a killed process loses its buffers but not what reached "
               "write(2); no power loss", "one process at a time dumps to a "
               "log", "nobody else edits the log"]
QUICK, THOROUGH = 25000, 600000
DIR = "/simfs/logs"


def gen(rng, i, tier):
    lives, n = [], 0
    files = pick_files(rng)
    nfiles = rng.choice((1, 1, 2, 3))
    big = i % 250 == 99         # a long life
    bad = rng.random() < 0.25
    for _ in range(rng.choice((1, 2, 2, 3))):
        ops = []
        ntr = rng.choice((1, 1, 2))
        for t in range(ntr):
            ops.append(dict(op="new", t=t, file=rng.randrange(nfiles)))
        for _ in range(280 if big and not lives else
                       rng.choice((2, 4, 8, 14))):
            t, r = rng.randrange(ntr), rng.random()
            if big:             # mostly calls
                r = 0.05 + 0.95 * r if rng.random() < 0.1 else \
                    0.41 + 0.4 * r
            n += 1
            if r < 0.40:
                ops.append(dict(op="dump", t=t))
            elif r < 0.75:
                ops.append(dict(op="track", t=t, what=rng.choice(
                    ("func", "lambda", "str", "object", "partial")),
                    meta=meta(rng, n, bad)))
            elif r < 0.85:
                ops.append(dict(op="meta", t=t, meta=meta(rng, n, bad) or
                                dict(m=n)))
            elif r < 0.90:
                ops.append(dict(op="pause", t=t, on=rng.random() < 0.5))
            elif r < 0.95:
                ops.append(dict(op="clear", t=t))
            else:
                ops.append(dict(op="new", t=t, file=rng.randrange(nfiles)))
        faults = []
        for _ in range(rng.choice((0, 1, 1, 2))):
            r = rng.random()
            if r < 0.3:
                faults.append(dict(kind="kill", at=rng.randint(1, 40)))
            elif r < 0.45:
                faults.append(dict(kind="kill", call=rng.choice(
                    ("f.write", "f.tear", "f.rename", "f.open", "f.unlink",
                     "f.trunc")), nth=rng.randint(1, 6)))
            elif r < 0.6:
                faults.append(dict(kind="short", call="f.write", short=round(
                    rng.random(), 2) or 0.5, nth=rng.randint(1, 8)))
            else:
                faults.append(dict(kind="errno", call=rng.choice(
                    ("f.open", "f.write", "f.write", "f.write", "f.rename",
                     "f.trunc", "f.read")), nth=rng.randint(1, 8),
                    times=rng.choice((1, 1, 2, 5)),
                    errno=rng.choice(("ENOSPC", "EIO", "EDQUOT", "EMFILE"))))
        lives.append(dict(ops=ops, faults=faults))
    cfg = dict(files=[list(f) for f in files][:nfiles],
               tear_seed=rng.randrange(1 << 30), tear_p=rng.choice((0, 0.8)),
               capacity=rng.choice((None, None, None, 600, 1500, 4000)))
    return dict(cfg=cfg, procs=lives, sched=dict(kind="random", p=0,
                                                 seed=rng.randrange(1 << 30)))


def pick_files(rng):
    """names and identifiers, no two of them alike when joined"""
    r = rng.random()
    if r < 0.5:
        some = [("t", ""), ("t", "id"), ("u", "")]
    elif r < 0.75:
        # alike but for an ending, a dot, case, or the identifier
        some = [("v1.0", ""), ("v1.1", ""), ("v1", ""), ("v1.0", "v1"),
                ("V1", ""), ("v1.0.json", ""), ("v1", "2"), ("v1", "2.5")]
    else:
        some = [("\u00e9", ""), ("e", ""), ("a b", ""), ("a", "b c"),
                ("x" * 60, ""), ("x" * 61, ""), ("x" * 60, "x"), ("0", ""),
                ("None", "0"), (".t", "")]
    rng.shuffle(some)
    return some


def meta(rng, n, bad):
    r = rng.random()
    if r < 0.3:
        return {}
    if bad and r < 0.45:
        return dict(bad=rng.choice(("object", "circle", "set", "key")))
    if r < 0.6:
        return dict(note=f"n{n}] ,[\n\u706b\"\\")
    if r < 0.7:
        return dict(pad="x" * rng.choice((10, 9000, 20000)))
    return dict(zip(("a", "b", f"k{n}"), (n, [n, None], {"x": 1.5})))


def build_meta(d):
    if "bad" not in d:
        return copy.deepcopy(d)
    v = dict(object=object(), set={1}, key={(1, 2): 3}, circle=[])[d["bad"]]
    if d["bad"] == "circle":
        v.append(v)
    return dict(bad=v)


class Thing:
    def __str__(self):
        return "thing!"


def a_function():
    pass


def targets():
    import functools
    part = functools.partial(a_function)
    return dict(func=(a_function, "a_function"),
                **{"lambda": ((lambda: 0), "<lambda>")},
                str=("text", "text"), object=(Thing(), "thing!"),
                partial=(part, str(part)))


def execute(plan, chooser=None):
    from pathlib import Path
    from dustgoggles.tracker import Tracker
    cfg = plan["cfg"]
    with SimRun(plan, chooser) as run:
        k = run.k
        fs = run.w.fs = FS(k, tear=run.w.tear, tear_p=cfg["tear_p"])
        fs.capacity = cfg["capacity"]
        things = targets()
        # per path: acceptable contents right now; None is "no file"
        truth = {}
        state, owner = dict(op=None), {}

        def contents(path):
            raw = fs.content(path)
            if raw is None:
                return None
            try:
                got = json.loads(raw.decode())
                assert isinstance(got, list)
                for e in got:
                    assert e["name"] == owner[path][0], e["name"]
                    assert iso(e["init_timestamp"]) <= iso(
                        e["write_timestamp"])
                return [e["history"] for e in got]
            except Exception as ex:
                return f"invalid ({type(ex).__name__}): {raw[-160:]!r}"

        def look(path, when):
            if path not in truth or run.viol:
                return
            got = contents(path)
            if not any(got == t for t in truth[path]):
                cls = "corrupt" if isinstance(got, str) else \
                    "lost" if got is None or len(got) < min(
                        len(t or ()) for t in truth[path]) else "wrong"
                run.fail(cls, f"{when} the log is {short(got)}; should be "
                         f"one of {[short(t) for t in truth[path]]}")

        def on_change(path):
            look(path, f"during {state['op']}")
        fs.on_change = on_change

        def settle(path):
            """after a fault the log may be in either state: take it"""
            got = contents(path)
            for t in truth[path]:
                if t == got:
                    truth[path] = [t]
                    return

        def life(spec):
            def fn(p):
                ts = {}
                for op in spec["ops"]:
                    state["op"] = op
                    if run.viol:
                        return
                    step(op, ts)
                    for path in truth:
                        look(path, f"after {op}")
            return fn

        def step(op, ts):
            if op["op"] == "new":
                name, ident = cfg["files"][op["file"] % len(cfg["files"])]
                o = run.h.do("new", (name,), lambda: Tracker(
                    name, identifier=ident, outdir=Path(DIR)))
                if o.ok:
                    t = o.value
                    path = str(t.outpath)
                    if owner.setdefault(path, (name, ident)) != (name, ident):
                        run.fail("shared-log", f"{(name, ident)} and "
                                 f"{owner[path]} log to {path}")
                    truth.setdefault(path, [None])
                    ts[op["t"]] = dict(t=t, path=path, hist=[], meta={},
                                       count=0, paused=False, bad=False)
                    o.value = None
                elif o.exc != "OSError":
                    run.fail("new-error", f"{o!r}")
                return
            m = ts.get(op["t"])
            if m is None:
                return
            t, path = m["t"], m["path"]
            if op["op"] == "track":
                fn, target = things[op["what"]]
                md = build_meta(op["meta"])
                def the_caller():
                    t.track(fn, **md)
                o = run.h.do("track", (op["what"],), the_caller)
                m["count"] += 1
                m["hist"].append(dict(target=target, trackcount=m["count"])
                                 | m["meta"] | md)
                if not o.ok:
                    run.fail("track-error", f"{o!r}")
            elif op["op"] == "meta":
                md = build_meta(op["meta"])
                t.set_metadata(**md)
                m["meta"] = m["meta"] | md
            elif op["op"] == "pause":
                t.paused = m["paused"] = op["on"]
            elif op["op"] == "clear":
                truth[path] = truth[path] + [None]
                o = run.h.do("clear", (), t.clear)
                if o.ok:
                    truth[path] = [None]
                    m.update(hist=[], count=0)
                else:
                    settle(path)
                    if not fired(run):
                        run.fail("clear-error", f"{o!r}")
            elif op["op"] == "dump":
                dump(t, m, path)
            check_history(t, m)

        def dump(t, m, path):
            try:
                hist = json.loads(json.dumps(m["hist"]))
            except (TypeError, ValueError):
                hist = None
            old = truth[path][0]
            before = fired(run)
            if not m["paused"] and hist is not None:
                truth[path] = [old, (old or []) + [Entry(hist)]]
            o = run.h.do("dump", (), t.dump)
            if m["paused"]:
                if not o.ok:
                    run.fail("dump-error", f"paused: {o!r}")
            elif o.ok:
                if hist is None:
                    run.fail("dump-outcome", f"{o!r} could not be written")
                else:
                    truth[path] = truth[path][-1:]
                    k.probe("dump done")
            elif hist is None:
                k.probe("dump unserializable")
                if fired(run) == before and o.exc not in (
                        "TypeError", "ValueError"):
                    run.fail("dump-error", f"{o!r}")
            else:
                k.probe("dump failed")
                if fired(run) == before or o.exc != "OSError":
                    run.fail("dump-error", f"{o!r}")
                look(path, f"after {o!r}")
                settle(path)

        def check_history(t, m):
            got = [{q: v for q, v in e.items() if q not in
                    ("caller", "lineno")} for e in t.history]
            if any(e.get("caller") != "the_caller" or e.get("lineno")
                   != CALL for e in t.history):
                run.fail("history", f"caller not recorded: "
                         f"{short(t.history)}")
            if not run.viol and got != m["hist"]:
                run.fail("history", f"{short(got)} instead of "
                         f"{short(m['hist'])}")

        for spec in plan["procs"]:
            k.spawn(life(spec), faults=spec["faults"])
            run.go()
            run.require_end("tracking")
            for path in truth:
                look(path, "after a process ended")
                settle(path)
            if not any(p.was_killed for p in k.procs):
                left = sorted(set(fs.files) - set(truth))
                if left:
                    raise Violation("left-over", f"files {left}")

        # once the causes are gone a dump succeeds
        fs.capacity = None

        def last(p):
            for name, ident in cfg["files"]:
                ops = [dict(op="new", t=0, file=cfg["files"].index(
                    [name, ident])),
                    dict(op="track", t=0, what="func", meta={}),
                    dict(op="dump", t=0)]
                ts = {}
                for op in ops:
                    state["op"] = op
                    step(op, ts)
                for path in truth:
                    look(path, f"finally after {op}")
        run.solo(last, "a final dump")
        open_ = [h.name for h in fs.unclosed() if not h.owner.was_killed]
        if open_:
            raise Violation("left-open", f"{open_}")
    return run.out


def call_line():
    import inspect
    lines, start = inspect.getsourcelines(execute)
    return start + next(j for j, s in enumerate(lines)
                        if s.strip() == "t.track(fn, **md)")


CALL = call_line()


def iso(s):
    return dt.datetime.fromisoformat(s)


class Entry(list):
    """a history as it comes back from JSON, minus who called from where"""

    def __init__(self, hist):
        super().__init__(hist)

    def __eq__(self, other):
        return isinstance(other, list) and len(other) == len(self) and all(
            {q: v for q, v in o.items() if q not in ("caller", "lineno")}
            == e for e, o in zip(self, other))

    __hash__ = None


def fired(run):
    return sum(v for n, v in run.k.fault_counts.items())


def short(x):
    s = repr(x)
    return s if len(s) < 260 else f"{s[:120]}...{s[-120:]}"
