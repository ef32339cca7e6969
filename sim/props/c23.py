"""C23 repeated work does not accumulate resources."""
import gc
import pathlib
import random

from sim.arrays import gen_array
from sim.base import SimRun, Violation, gen_sched, gen_value, names
from sim.env import run_finalizers
from sim.fs import FS
from sim.props.c06 import bad_value, gen_fault, value_of

ID = "C23"
RULE = ("each run: 1-3 processes repeat the same rounds of work (stores, "
        "replacements, reads, listings, removals, dumps, locking, opening "
        "again, notes; some of it refused or hit by failing system calls), "
        "each round removing what it added; descriptors, blocks, bytes and "
        "exit hooks after the last round are compared with those after the "
        "first rounds")
REAL = ["dustgoggles.codex.implements.*", "dustgoggles.codex.codecs, memutilz",
        "dustgoggles.tracker", "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "file system below the io/os calls (in memory)", "exit hooks",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker",
               "each process changes entries of its own",
               "views and blocks handed out to the caller count as the "
               "caller's", "no process is killed"]
QUICK, THOROUGH = 6000, 200000
KINDS = ("notepad", "notepad", "notemeta", "grid", "tag", "meta", "sticky",
         "sticky", "lock", "tracker")
WARM, MORE = 2, 3


def gen_val(rng, kind, n):
    if kind == "grid":
        return gen_array(rng, n)
    return gen_value(rng, n) if kind != "meta" else ["m", n, rng.randrange(40)]


def gen_op(rng, kind, keys, n):
    key = rng.choice(keys)
    if kind == "lock":
        return dict(op=rng.choice(("with", "with", "raise", "again",
                                   "timeout")), key="lock")
    if kind == "tracker":
        return dict(op=rng.choice(("track", "track", "dump", "dump", "pause",
                                   "meta", "new")), key=key, n=n)
    if kind == "sticky":
        return dict(op=rng.choice(("note", "note", "note", "stick", "read",
                                   "anon", "peel", "bad")),
                    key=key, val=gen_val(rng, kind, n),
                    cleanup=rng.random() < 0.5)
    return dict(op=rng.choice((
        "set", "set", "set", "excl", "del", "get", "get", "missing", "list",
        "iter", "raw", "bad", "reopen", "dump", "reserved", "other", "other")),
        key=key, val=gen_val(rng, kind, n), cleanup=rng.random() < 0.3,
        how=rng.choice((None, None, "view", "block")))


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    nproc = rng.choice((1, 1, 2, 3)) if kind != "tracker" else 1
    allkeys = names(rng, 3 * nproc + 2)
    fixed, rest = allkeys[:2], allkeys[2:]
    setup = [dict(key=k, val=gen_val(rng, kind, 900 + j))
             for j, k in enumerate(fixed[:rng.choice((0, 1, 2))])]
    procs, n = [], 0
    for m in range(nproc):
        ops = []
        for _ in range(rng.choice((1, 2, 4, 8))):
            n += 1
            ops.append(gen_op(rng, kind, rest[3 * m:3 * m + 3], n))
        faults = []
        if rng.random() < 0.5:
            faults = [gen_fault(rng) for _ in range(rng.choice((1, 1, 2)))]
            if kind in ("tracker", "notepad", "grid") and rng.random() < 0.7:
                faults.append(dict(
                    kind="errno", call=rng.choice(("f.open", "f.write")),
                    nth=rng.randint(1, 3), errno=rng.choice(
                        ("ENOSPC", "EIO", "EMFILE"))))
        procs.append(dict(ops=ops, faults=faults))
    return dict(cfg=dict(kind=kind), setup=setup, procs=procs,
                max_steps=40000, sched=gen_sched(rng, 300 * nproc))


class Worker:
    """what one process holds from round to round"""

    def __init__(self, kind, m, create=False):
        from dustgoggles.codex import implements as im
        self.im, self.kind, self.m = im, kind, m
        self.notes, self.how = {}, None
        self.mine = set()
        self.spare = None
        self.sample = gen_val(random.Random(m), kind, m)
        self.o = self.open(create)

    def open(self, create=False, cleanup=False, name="subj"):
        im, kw = self.im, dict(create=create, cleanup_on_exit=cleanup)
        if self.kind == "tracker":
            from dustgoggles.tracker import Tracker
            return Tracker(f"t{self.m}", outdir=pathlib.Path("/simfs"))
        if self.kind in ("sticky", "lock"):
            return None
        if self.kind in ("notepad", "notemeta"):
            return im.Notepad(name, index_type=im.TagIndex if self.kind ==
                              "notepad" else im.MetaTagIndex, **kw)
        return dict(grid=im.GridPaper, tag=im.TagIndex,
                    meta=im.MetaTagIndex)[self.kind](name, **kw)

    def put(self, key, v, excl=False):
        self.mine.add(key)
        if self.kind == "tag":
            self.o.add(key, exists_ok=not excl)
        elif self.kind == "meta":
            self.o.add(key, v, exists_ok=not excl)
        elif self.kind == "grid" and self.how == "view":
            self.o.__setitem__(key, v, exists_ok=not excl, keep_open=True)
        else:
            self.o.set(key, v, exists_ok=not excl)

    def delete(self, key):
        if self.kind in ("tag", "meta"):
            self.o.remove(key)
        else:
            del self.o[key]

    def get(self, key):
        if self.kind in ("tag", "meta"):
            return self.o.check(key)
        if self.kind == "grid" and self.how != "view":
            return self.o.get(key, copy=True)
        if self.how == "block" and self.kind not in ("tag", "meta"):
            return self.o.get(key, fetch=False)
        return self.o.get(key)

    def do(self, op):
        what, key, k = op["op"], op["key"], self.kind
        self.how = op.get("how")
        if k == "lock":
            return self.lock(what)
        if k == "tracker":
            return self.track(what, op)
        v = None if what in ("bad", "get", "read", "del") \
            else value_of(k, op["val"])
        if k == "sticky":
            return self.note(what, op, v)
        if what in ("set", "excl"):
            return self.put(key, v, what == "excl")
        if what == "bad":
            self.mine.add(key)
            b = bad_value(k, op["val"]["tag"] if k == "grid" else op["val"][1])
            return self.o.add(key, b) if k in ("tag", "meta") \
                else self.o.set(key, b)
        if what == "del":
            return self.delete(key)
        if what == "get":
            self.get(key)
        elif what == "missing":
            self.get("nobody")
        elif what == "list":
            list(self.o.update() if k in ("tag", "meta") else self.o.keys())
        elif what == "iter":
            if k == "meta":
                self.o.items()
            elif k != "tag":
                for _ in self.o.iteritems():
                    pass
        elif what == "raw":
            if k in ("notepad", "notemeta", "grid"):
                self.o.get_raw(key)
        elif what == "reopen":
            self.open()
        elif what == "other":
            # an object of its own that comes and goes
            if self.spare is None:
                self.spare = self.open(True, op["cleanup"], f"own{self.m}")
            mine, self.o = self.o, self.spare
            try:
                self.put(key, v)
            finally:
                self.o = mine
            self.spare.close()
            self.spare = None
        elif what == "reserved":
            self.put("index_key_0", v)
        elif what == "dump":
            if k in ("notepad", "notemeta", "grid"):
                self.o.dump(key, "/simfs/out")

    def note(self, what, op, v):
        addr = f"subj_{self.m}_{op['key']}"
        S = self.im.Sticky
        if what == "note":
            if addr in self.notes:
                self.notes[addr].close()
                del self.notes[addr]
            self.notes[addr] = S.note(v, addr, cleanup_on_exit=op["cleanup"])
        elif what == "stick":
            if addr in self.notes:
                self.notes[addr].stick(v)
        elif what == "read":
            S(addr).read()
        elif what == "anon":
            n = S.note(v, cleanup_on_exit=op["cleanup"])
            self.notes[n.address] = n
            n.pull()
            del self.notes[n.address]
        elif what == "peel":
            if addr in self.notes:
                self.notes[addr].pull()
                del self.notes[addr]
        elif what == "bad":
            S.note(bad_value("sticky", op["val"][1]), addr + "b",
                   cleanup_on_exit=op["cleanup"])

    def lock(self, what):
        lock = self.im.SlidingLock("subj")
        if what == "timeout":
            lock.max_spins = 1
        with lock:
            if what == "raise":
                raise ValueError("in the section")
        if what == "again":
            with lock:
                pass

    def track(self, what, op):
        t = self.o
        if what == "track":
            t.track(print, note=op["n"])
        elif what == "dump":
            t.dump()
        elif what == "pause":
            t.paused = not t.paused
        elif what == "meta":
            t.set_metadata(n=op["n"])
        else:
            self.o = self.open()

    def tidy(self):
        """remove what the round added; must succeed"""
        if self.kind == "sticky":
            for n in self.notes.values():
                try:
                    n.close()
                except FileNotFoundError:       # a peel that failed late
                    pass
            self.notes.clear()
        elif self.kind == "tracker":
            self.o.paused = False
            self.o.clear()
        elif self.kind != "lock":
            if self.spare is not None:
                # likewise for what could be neither listed nor taken back
                for key in sorted(self.mine, key=str):
                    try:
                        self.spare.remove(key) if self.kind in (
                            "tag", "meta") else self.spare.__delitem__(key)
                    except (KeyError, FileNotFoundError):
                        pass
                self.spare.close()
                self.spare = None
            # a removal without faults makes up for earlier ones
            last = f"last{self.m}"
            self.put(last, value_of(self.kind, self.sample))
            for key in sorted(self.mine, key=str):
                try:
                    self.delete(key)
                except (KeyError, FileNotFoundError):
                    pass
        self.mine.clear()


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    kind = cfg["kind"]
    with SimRun(plan, chooser) as run:
        k = run.k
        fs = run.w.fs = FS(k, relative=True)

        def prepare(p):
            w = Worker(kind, 0, True)
            for op in plan["setup"]:
                if kind not in ("lock", "sticky", "tracker"):
                    w.put(op["key"], value_of(kind, op["val"]))
        run.solo(prepare, "filling")
        held = {}

        def one(m, spec):
            def fn(p):
                windows, p.windows = p.windows, []
                calls, p.call_faults = p.call_faults, {}
                if m in held:
                    w, hooks = held[m][0], held[m][2]
                    p.space.atexit[:] = hooks
                else:
                    w = Worker(kind, m)
                p.windows, p.call_faults = windows, calls
                p.points, p.calls = 0, {}
                for op in spec["ops"]:
                    o = run.h.do(op["op"], (op["key"],), lambda: w.do(op))
                    o.value = None
                p.windows, p.call_faults = [], {}
                o = run.h.do("tidy", (), w.tidy)
                if not o.ok:
                    run.fail("tidy-error", f"{o!r}")
                # the process lives on
                held[m] = (w, p.space, list(p.space.atexit))
                p.space.atexit.clear()
            return fn

        seen = []
        for r in range(WARM + MORE):
            for m, spec in enumerate(plan["procs"]):
                k.spawn(one(m, spec), faults=spec["faults"],
                        space=held[m][1] if m in held else None)
            run.go()
            run.require_end("a round of work")
            gc.collect()
            blocks = run.w.blocks()
            seen.append(dict(
                descriptors=[len(h[1].fds) for _, h in sorted(held.items())],
                hooks=[sum(e[0] is not run_finalizers for e in h[2])
                       for _, h in sorted(held.items())],
                blocks=len(blocks), bytes=sum(
                    len(n.data) for n in run.w.names.values()),
                files=len(fs.unclosed())))
        early, late = seen[:WARM], seen[-1]
        for what in ("descriptors", "hooks"):
            for m, n in enumerate(late[what]):
                if n > max(e[what][m] for e in early):
                    raise Violation(f"{what}-grow", f"process {m} holds {n} "
                                    f"after {len(seen)} rounds: {seen}")
        for what in ("blocks", "bytes", "files"):
            if late[what] > max(e[what] for e in early):
                raise Violation(f"{what}-grow", f"{late[what]} {what} after "
                                f"{len(seen)} rounds: {seen} "
                                f"{run.w.blocks()}")
        if any(h[1].fds for h in held.values()):
            k.probe("descriptors held")
        held.clear()
    return run.out
