"""C22 dumped entries."""
import io
import pickle

from sim.arrays import build_array, gen_array, same_bytes
from sim.base import (SimRun, Violation, build_value, gen_sched, gen_value,
                      names, same, slow)
from sim.fs import FS
from sim.props.c05 import Log
from sim.props.c06 import match

ID = "C22"
RULE = ("each run: one or two processes dump entries of a notepad or grid "
        "paper into files, by name or not, truncating or appending, while "
        "others store, replace and remove entries; file operations fail, are "
        "cut short, or are a process's last; finally the object is closed, "
        "dumping or not; every dumped file is compared with the values its "
        "entry had meanwhile")
REAL = ["dustgoggles.codex.implements.Notepad, GridPaper (dump, close), "
        "indexes, SlidingLock", "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib)", "numpy.ndarray.tofile",
        "io buffering (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "file system below the io/os calls (in memory)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker",
               "each file has one process that dumps into it",
               "a dump that fails or is killed may leave its file incomplete"]
QUICK, THOROUGH = 7000, 250000
KINDS = ("notepad", "notepad", "notemeta", "fake", "grid", "grid")
FILES = ("out0", "out1", "/simfs/deep.bin")


def gen_val(rng, kind, n):
    return gen_array(rng, n) if kind == "grid" else gen_value(rng, n)


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    keys = names(rng, rng.choice((1, 2, 3, 4)), prefix="subj")
    if rng.random() < 0.4:
        a, b = rng.choice((("a.b", "a_b"), ("x.y.z", "x_y.z"), ("q.1", "q_1"),
                           ("f.gz", "f_gz")))
        keys = [a, b] + [k for k in keys if str(k) not in (a, b)][:2]
        if rng.random() < 0.5:
            keys[:2] = b, a
    keys = [k for k in keys if "/" not in str(k)] or ["k"]
    n, setup = 0, []
    for k in keys:
        if rng.random() < 0.85:
            n += 1
            setup.append(dict(op="set", key=k, val=gen_val(rng, kind, n)))
    ndump = rng.choice((1, 1, 2))
    procs = []
    for m in range(ndump):
        ops = []
        for _ in range(rng.choice((1, 2, 3, 4))):
            fn = rng.choice(FILES) + str(m) if ndump > 1 or \
                rng.random() < 0.7 else None
            mode = rng.choice(("wb", "wb", "wb", "ab")) \
                if kind != "grid" else "wb"
            ops.append(dict(op="dump", key=rng.choice(keys), fn=fn,
                            mode=mode))
            if rng.random() < 0.15:
                ops[-1]["key"] = "nobody"
        faults = []
        r = rng.random()
        if r < 0.35:
            faults.append(dict(kind="errno", call=rng.choice(
                ("f.open", "f.write", "f.write")), nth=rng.randint(1, 4),
                errno=rng.choice(("ENOSPC", "EIO", "EACCES", "EMFILE"))))
        elif r < 0.42:
            faults.append(dict(kind="short", call="f.write", nth=rng.randint(
                1, 4), short=rng.choice((0.1, 0.5, 0.9))))
        elif r < 0.5:
            faults.append(dict(kind="kill", at=rng.randint(1, 60)))
        elif r < 0.6:
            faults.append(slow(rng, 40, (10, 40, 150)))
        procs.append(dict(ops=ops, faults=faults))
    for m in range(rng.choice((0, 0, 1, 1, 2))):
        ops = []
        for _ in range(rng.choice((1, 2, 4, 6))):
            key = rng.choice(keys)
            n += 1
            ops.append(dict(op="del", key=key) if rng.random() < 0.25 else
                       dict(op="set", key=key, val=gen_val(rng, kind, n)))
        procs.append(dict(ops=ops, faults=[]))
    cfg = dict(kind=kind, ndump=ndump, tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0.5, 0.9)),
               close=rng.choice((None, "dump", "dump", "plain")),
               prefix=rng.choice(("subj", "subj", "su.bj")))
    return dict(cfg=cfg, setup=setup, procs=procs, max_steps=30000,
                sched=gen_sched(rng, 200 * len(procs)))


def make(cfg, create):
    from dustgoggles.codex import implements as im
    kind = cfg["kind"]
    if kind == "grid":
        return im.GridPaper(cfg["prefix"], create=create)
    return im.Notepad(cfg["prefix"], create=create, index_type=dict(
        notepad=im.TagIndex, notemeta=im.MetaTagIndex,
        fake=im.FakeIndex)[kind])


def value_of(kind, desc):
    return build_array(desc) if kind == "grid" else build_value(desc)


def is_dump(kind, blob, desc):
    """is `blob` exactly the stored form of the value?"""
    if blob is None:
        return False
    want = value_of(kind, desc)
    if kind == "grid":
        return same_bytes(blob, want)
    stream = io.BytesIO(blob)
    try:
        got = pickle.load(stream)
    except Exception:
        return False
    return stream.tell() == len(blob) and same(want, got)


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    kind = cfg["kind"]
    with SimRun(plan, chooser) as run:
        k = run.k
        fs = run.w.fs = FS(k, relative=True)
        fs.dirs.add("/simfs/deep")
        dumps, default, ended = [], {}, {}
        k.on_exit.append(lambda p: ended.setdefault(p.pid, k.stamp()))

        def change(p, o, op):
            key = str(op["key"])
            if op["op"] == "set":
                run.h.do("set", (key, op["val"]), lambda: o.set(
                    op["key"], value_of(kind, op["val"])))
            else:
                run.h.do("del", (key,), lambda: o.__delitem__(op["key"]))

        def prepare(p):
            o = make(cfg, True)
            for op in plan["setup"]:
                change(p, o, op)
        run.solo(prepare, "filling")
        mine = {}

        def dump(p, o, op):
            key, fn = op["key"], op["fn"]
            path = fs.where(fn) if fn is not None else default.get(str(key))
            before = {q: fs.content(q) for q in fs.files}
            nf = sum(k.fault_counts.values())
            kw = {} if fn is None else dict(fn=fn)
            if op["mode"] != "wb":
                kw["mode"] = op["mode"]
            d = run.h.do("dump", (str(key), fn, op["mode"]),
                         lambda: o.dump(key, **kw))
            after = {q: fs.content(q) for q in fs.files}
            changed = [q for q in after if after[q] != before.get(q)]
            if cfg["ndump"] == 1 and len(changed) > 1:
                raise Violation("other-file", f"{d!r} changed {changed}")
            if fn is None and changed:
                path = changed[0]
                # names depend on the keys there are
                if kind != "fake" and len(plan["procs"]) == 1 and any(
                        q != str(key) and r == path
                        for q, r in default.items()):
                    raise Violation("same-file", f"{d!r}: {path} belongs to "
                                    f"another of {default}")
                if d.ok:
                    default[str(key)] = path
            dumps.append((d, before.get(path), after.get(path), path,
                          sum(k.fault_counts.values()) != nf))
            if fs.unclosed() and cfg["ndump"] == 1:
                raise Violation("left-open", f"after {d!r}")

        def body(spec):
            def fn(p):
                windows, p.windows = p.windows, []
                calls, p.call_faults = p.call_faults, {}
                o = make(cfg, False)
                mine[p.pid] = o
                p.windows, p.call_faults = windows, calls
                p.calls = {}
                try:
                    for op in spec["ops"]:
                        (dump if op["op"] == "dump" else change)(p, o, op)
                except Violation as v:
                    run.fail(v.cls, v.msg)
            return fn

        for spec in plan["procs"]:
            k.spawn(body(spec), faults=spec["faults"])
        run.go()
        killed = k.fault_counts.get("kill", 0)
        if not killed:
            run.require_end("dumps and updates")
        judge(run, kind, dumps, killed)
        if killed:
            return run.out
        logs = history(run)

        def rest(p):
            o = make(cfg, False)
            end = k.stamp()
            for key, log in sorted(logs.items()):
                r = run.h.do("look", (key,), lambda: o[key])
                there = not log.may_be_missing(end)
                if there and not (r.ok and any(match(
                        kind if kind == "grid" else "notepad", s.args[1],
                        r.value) for s in log.values(r.inv, r.ret))):
                    raise Violation("entry-changed", f"{r!r}, stored "
                                    f"{log.values(r.inv, r.ret)}")
        run.solo(guarded(run, rest), "reading at rest")
        if cfg["close"] and kind != "fake":
            run.solo(guarded(run, lambda p: closing(
                run, fs, cfg, make(cfg, False))), "closing")
    return run.out


def guarded(run, fn):
    def g(p):
        try:
            fn(p)
        except Violation as v:
            run.fail(v.cls, v.msg)
    return g


def closing(run, fs, cfg, o):
    kind = cfg["kind"]
    values = {}
    for key in list(o.keys()):
        r = run.h.do("look", (key,), lambda: o[key])
        if r.ok:
            values[key] = r.value
    fs.files.clear()
    d = run.h.do("close", (cfg["close"],),
                 lambda: o.close(dump=cfg["close"] == "dump"))
    if not d.ok:
        raise Violation("close-error", f"{d!r}")
    left = dict((q, fs.content(q)) for q in fs.files)
    if cfg["close"] == "plain":
        if left:
            raise Violation("other-file", f"{d!r} wrote {sorted(left)}")
        return
    for key, v in sorted(values.items()):
        hit = [q for q, blob in left.items() if equal(kind, blob, v)]
        if not hit:
            raise Violation("not-dumped", f"closed with dump=True, but none "
                            f"of {sorted(left)} holds {key!r}")
        del left[hit[0]]
    if left:
        raise Violation("other-file", f"{d!r} also wrote {sorted(left)}")


def equal(kind, blob, v):
    if kind == "grid":
        return same_bytes(blob, v)
    try:
        stream = io.BytesIO(blob)
        got = pickle.load(stream)
    except Exception:
        return False
    return stream.tell() == len(blob) and same(v, got)


def history(run):
    ups = {}
    for o in run.h.ops:
        if o.kind == "set" and o.ret is not None and not o.ok:
            raise Violation("set-error", f"{o!r}")
        if o.kind == "del" and o.ret is not None and not o.ok:
            if o.exc != "KeyError":
                raise Violation("del-error", f"{o!r}")
            continue
        if o.kind in ("set", "del"):
            ups.setdefault(o.args[0], []).append(o)
    return {key: Log(v) for key, v in ups.items()}


def judge(run, kind, dumps, killed):
    logs = history(run)
    none = Log([])
    for d, before, after, path, hit in dumps:
        key, fn, mode = d.args
        log = logs.get(key, none)
        busy = log.overlapped(d.inv, d.ret)
        if not d.ok:
            missing = log.may_be_missing(d.inv) or busy
            if hit or killed:
                continue
            if not missing or d.exc not in ("KeyError", "FileNotFoundError"):
                raise Violation("dump-error", f"{d!r}")
            if after != before:
                raise Violation("file-lost", f"{d!r} left "
                                f"{None if after is None else len(after)} "
                                f"bytes in {path}, which had "
                                f"{None if before is None else len(before)}")
            continue
        if kind == "fake" and busy:
            continue        # nothing keeps others from storing meanwhile
        old = (before or b"") if mode == "ab" else b""
        vals = log.values(d.inv, d.ret)
        if after is None or after[:len(old)] != old or not any(
                is_dump(kind, after[len(old):], s.args[1]) for s in vals):
            raise Violation("wrong-dump", f"{d!r} left {after!r:.150} in "
                            f"{path}; stored {vals}")
        if busy:
            run.k.probe("dumped amid updates of the key")
