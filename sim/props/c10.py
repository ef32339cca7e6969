"""C10 sticky notes."""
import random

from sim.base import (SimRun, Violation, build_value, gen_sched, gen_value,
                      same, slow)
from sim.props.c05 import Log

ID = "C10"
RULE = ("each run: 1-4 processes leave, replace, read and peel sticky notes "
        "at shared and at self-chosen addresses, some with identical random "
        "state, some cleaning up on exit; every read is compared with what "
        "was stuck at its address before or during it")
REAL = ["dustgoggles.codex.implements.Sticky", "dustgoggles.codex.codecs, "
        "memutilz", "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock",
        "random state per process", "exit hooks"]
ASSUMPTIONS = ["processes share one resource tracker",
               "a copy to or from a block happens in up to five parts, in "
               "any order; 8 bytes or fewer are copied at once"]
QUICK, THOROUGH = 12000, 400000


def gen(rng, i, tier):
    nproc = rng.choice((1, 2, 2, 3, 3, 4))
    addrs = [f"note{n}" for n in range(rng.choice((1, 1, 2)))] + \
        (["5", "x y"] if rng.random() < 0.1 else [])
    n = 0
    setup = []
    for a in addrs:
        if rng.random() < 0.4:
            n += 1
            setup.append(dict(op="note", addr=a, val=gen_value(rng, n)))
    procs = []
    big = i % 300 == 99         # a long life
    peel = rng.random() < 0.4
    anon = rng.random() < 0.3
    hard = rng.random() < 0.25      # some sticks fail
    for m in range(nproc):
        ops = []
        for _ in range(300 // nproc if big else rng.choice((1, 2, 4, 6))):
            r = rng.random()
            a = rng.choice(addrs)
            n += 1
            if r < 0.3:
                ops.append(dict(op="note", addr=a, val=gen_value(rng, n)))
            elif r < 0.4:
                ops.append(dict(op="stick", addr=a, val=gen_value(rng, n)))
            elif r < 0.5 and peel:
                ops.append(dict(op="pull", addr=a,
                                how=rng.choice(("pull", "close"))))
            elif r < 0.62 and anon:
                ops.append(dict(op="anon", val=gen_value(rng, n),
                                cleanup=rng.random() < 0.5,
                                peel=rng.random() < 0.2))
            else:
                ops.append(dict(op="read", addr=a,
                                how=rng.choice(("fresh", "fresh", "reread"))))
        faults = []
        if hard:
            for op in ops:
                if op["op"] in ("note", "stick") and rng.random() < 0.2:
                    op["bad"] = True
                elif op["op"] == "read" and rng.random() < 0.3:
                    op["how"] = "held"
            if rng.random() < 0.8:
                # (the standard library reacts to later failures by unlinking
                # whatever has the name by then)
                faults.append({"kind": "errno", "from": rng.randint(1, 30),
                               "calls": ["create"],
                               "times": rng.choice((1, 2, 9)),
                               "errno": rng.choice(("ENOSPC", "ENOMEM",
                                                    "EMFILE"))})
        if rng.random() < 0.12:
            faults.append(slow(rng, 40, (10, 40, 150)))
        elif not faults and rng.random() < 0.1:
            # a reader lacks descriptors
            ops = [op for op in ops if op["op"] == "read"]
            faults = [dict(kind="errno", call="open", nth=rng.randint(1, 6),
                           times=rng.choice((1, 2)), errno=rng.choice(
                               ("EMFILE", "ENFILE")))]
        procs.append(dict(ops=ops, faults=faults,
                          twin=anon and rng.random() < 0.7))
    cfg = dict(tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0.3, 0.9)))
    return dict(cfg=cfg, setup=setup, procs=procs,
                max_steps=600000 if big else 6000, sched=gen_sched(rng, 50 * nproc))


class Unstickable(Exception):
    pass


class Unsendable:
    def __reduce__(self):
        raise Unstickable


def execute(plan, chooser=None):
    from dustgoggles.codex.implements import Sticky
    with SimRun(plan, chooser) as run:
        anon = []
        k = run.k

        def act(p, op, held):
            a = op.get("addr")
            if op["op"] == "note":
                v = Unsendable() if op.get("bad") else build_value(op["val"])

                def go():
                    held[a] = Sticky.note(v, a)
                run.h.do("set", (a, op["val"]), go)
            elif op["op"] == "stick":
                s = held.setdefault(a, Sticky(a))
                v = Unsendable() if op.get("bad") else build_value(op["val"])
                run.h.do("set", (a, op["val"]), lambda: s.stick(v))
            elif op["op"] == "pull":
                s = held.get(a) or Sticky(a)
                run.h.do("del", (a,), s.pull if op["how"] == "pull"
                         else s.close)
            elif op["op"] == "read":
                if op["how"] == "fresh":
                    s = Sticky(a)
                    o = run.h.do("get", (a,), s.read)
                    if o.ok and o.value is not None:
                        again = run.h.do("cached", (a,), s.read)
                        if not again.ok or not same(again.value, o.value):
                            run.fail("cache", f"{o!r} then {again!r} from "
                                     f"the same object")
                elif op["how"] == "held":
                    # what a note object shows was stuck here some time
                    if a in held:
                        run.h.do("held", (a,), held[a].read)
                else:
                    s = held.setdefault(a, Sticky(a))
                    run.h.do("get", (a,), lambda: s.read(reread=True))
            else:
                v = build_value(op["val"])
                o = run.h.do("anon", (op["val"],), lambda: Sticky.note(
                    v, cleanup_on_exit=op["cleanup"]))
                if o.ok:
                    s, o.value = o.value, o.value.address
                    rec = dict(addr=o.value, val=op["val"], pid=p.pid,
                               cleanup=op["cleanup"], peeled=False)
                    clash = [x for x in anon if x["addr"] == o.value
                             and not x["peeled"]
                             and not (x["cleanup"] and x.get("exited"))]
                    if clash:
                        run.fail("shared-address", f"two notes left without "
                                 f"an address share {o.value}")
                    anon.append(rec)
                    if op["peel"]:
                        q = run.h.do("peel", (o.value,), s.pull)
                        if not q.ok:
                            run.fail("peel-error", f"{q!r}")
                        rec["peeled"] = True
                    held.setdefault("anon", []).append(s)

        def prepare(p):
            for op in plan["setup"]:
                act(p, op, {})
        run.solo(prepare, "leaving notes")

        def body(spec):
            def fn(p):
                held = {}
                if spec["twin"]:
                    p.space.rng = random.Random("twin")
                for op in spec["ops"]:
                    act(p, op, held)
                for rec in anon:
                    if rec["pid"] == p.pid:
                        rec["exited"] = True
            return fn

        lacking = set()
        for spec in plan["procs"]:
            p = k.spawn(body(spec), faults=spec["faults"])
            if any(f.get("call") == "open" for f in spec["faults"]):
                lacking.add(p.pid)
        run.go()
        run.require_end("sticky operations")
        for p in k.procs:
            if p.space.exit_errors:
                raise Violation("exit-error", f"process {p.pid} exits with "
                                f"{p.space.exit_errors}")

        def final(p):
            for a in sorted({o.args[0] for o in run.h.ops
                             if o.kind in ("set", "del", "get")}):
                act(p, dict(op="read", addr=a, how="fresh"), {})
            for rec in anon:
                gone = rec["peeled"] or rec["cleanup"]
                reused = sum(x["addr"] == rec["addr"] for x in anon) > 1
                o = run.h.do("anon-read", (rec["addr"],),
                             Sticky(rec["addr"]).read)
                if reused:
                    continue
                if gone and run.w.blocks(rec["addr"]):
                    run.fail("left-behind", f"{rec} should be gone")
                if not gone and not (o.ok and same(
                        o.value, build_value(rec["val"]))):
                    run.fail("wrong-value", f"{o!r} for {rec}")
        run.solo(final, "reading at rest")
        judge(run, lacking)
    return run.out


def once(run, ups, lost):
    """between two stickings only one peel can have removed the note"""
    for a, ops in ups.items():
        sets = [o for o in ops if o.kind == "set"] + lost.get(a, [])
        took = {}
        for o in ops:
            if o.kind != "del" or any(
                    s.inv < o.ret and s.ret > o.inv for s in sets):
                continue
            n = sum(s.ret <= o.inv for s in sets)
            if n in took:
                raise Violation("peeled-twice", f"{took[n]!r} and {o!r}; "
                                f"stickings: {sets}")
            took[n] = o


def judge(run, lacking):
    ups, lost = {}, {}
    for o in run.h.ops:
        if o.kind in ("set", "del"):
            hurt = o.kind == "set" and o.exc in ("OSError", "Unstickable")
            if not o.ok and not hurt and not (
                    o.kind == "del" and o.exc == "FileNotFoundError"):
                raise Violation(f"{o.kind}-error", f"{o!r}")
            if o.ok:
                ups.setdefault(o.args[0], []).append(o)
            elif hurt:
                # may have removed the note there was
                lost.setdefault(o.args[0], []).append(o)
        elif o.kind in ("anon",) and not o.ok and o.exc != "OSError":
            raise Violation("note-error", f"{o!r}")
    once(run, ups, lost)
    logs = {a: Log(u) for a, u in ups.items()}
    none = Log([])
    for o in run.h.ops:
        if o.kind == "held" and o.value is not None and not any(
                same(build_value(s.args[1]), o.value)
                for s in ups.get(o.args[0], ()) if s.kind == "set"):
            raise Violation("never-stuck", f"{o!r} was never stuck at "
                            f"{o.args[0]}: {ups.get(o.args[0])}")
        if o.kind not in ("get", "del"):
            continue
        log = logs.get(o.args[0], none)
        hurt = any(u.inv < o.ret for u in lost.get(o.args[0], ()))
        if o.kind == "del":
            rest = Log([u for u in log.ups if u is not o])
            busy = rest.overlapped(o.inv, o.ret)
            if busy:
                continue
            if o.ok and not rest.values(o.inv, o.ret):
                raise Violation("peel-outcome", f"{o!r}: nothing was there")
            if not o.ok and not hurt and not rest.may_be_missing(o.inv):
                raise Violation("peel-outcome", f"{o!r} after {rest.ups}")
        if o.kind != "get":
            continue
        busy = log.overlapped(o.inv, o.ret)
        if o.exc == "OSError" and o.pid in lacking:
            continue
        if not o.ok:
            raise Violation("read-error", f"{o!r}; updates {log.ups}")
        good = any(same(build_value(s.args[1]), o.value)
                   for s in log.values(o.inv, o.ret))
        if o.value is None:
            good = good or busy or hurt or log.may_be_missing(o.inv)
        if not good:
            old = any(same(build_value(s.args[1]), o.value)
                      for s in log.sets)
            raise Violation(
                "lost" if o.value is None else "stale" if old else "mixture",
                f"{o!r}; stores that could explain it: "
                f"{log.values(o.inv, o.ret)}; all updates: {log.ups}")
