"""C28 objects that are given no name."""
import random

from sim.base import SimRun, Violation, gen_sched, names, slow
from sim.props import c06
from sim.props.c06 import Subject, match, value_of

ID = "C28"
RULE = ("each run: 1-4 processes, mostly with the random numbers of the "
        "process they were all forked from, make notepads, grid papers, "
        "indexes and stickies without giving them names, use them at once "
        "under the same keys, hand them to each other by the names they got, "
        "close them or leave them to be removed on exit; some are killed, "
        "stalled or meet failing calls")
REAL = ["dustgoggles.codex.implements.*", "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib)"]
STUB = c06.STUB + ["random numbers (seeded, the same in several processes)"]
ASSUMPTIONS = ["processes share one resource tracker",
               "each entry has one writing process",
               "nobody closes an object while another process uses it",
               "no sticky is stuck anew while others are made (for a moment "
               "its address is then free; there is no lock on it)"]
QUICK, THOROUGH = 8000, 250000
KINDS = ("notepad", "notepad", "notemeta", "grid", "tag", "meta", "sticky")


def gen_val(rng, kind, n):
    while True:
        desc = c06.gen_val(rng, kind, n)
        if kind != "sticky" or value_of(kind, desc) is not None:
            return desc


def gen(rng, i, tier):
    nproc = rng.choice((1, 2, 2, 3, 4))
    keys = [str(k) for k in names(rng, rng.choice((1, 2, 3)))]
    few = [rng.choice(KINDS)] if rng.random() < 0.4 else KINDS
    hard = rng.random() < 0.25
    procs, n = [], 0
    for m in range(nproc):
        ops, made = [], []
        for _ in range(rng.choice((2, 4, 7, 10))):
            n += 1
            r = rng.random()
            if not made or r < 0.3:
                made.append(rng.choice(few))
                ops.append(dict(op="make", kind=made[-1],
                                val=gen_val(rng, made[-1], n),
                                exit=rng.random() < 0.3))
                continue
            j = rng.randrange(len(made))
            key = rng.choice(keys)
            if r < 0.65:
                ops.append(dict(op="set", obj=j, key=key,
                                val=gen_val(rng, made[j], n)))
            elif r < 0.75:
                ops.append(dict(op="del", obj=j, key=key))
            elif r < 0.85:
                ops.append(dict(op="look", obj=j))
            elif r < 0.95:
                ops.append(dict(op="other", nth=rng.randrange(6)))
            else:
                ops.append(dict(op="close", obj=j))
        faults = []
        r = rng.random()
        if hard and r < 0.3:
            faults.append(dict(kind="kill", at=rng.randint(1, 80)))
        elif hard and r < 0.7:
            faults.append({"kind": "errno", "from": rng.randint(1, 60),
                           "calls": rng.choice((["create"], ["open"],
                                                ["create", "open"])),
                           "times": rng.choice((1, 2, 6)),
                           "errno": rng.choice(("EMFILE", "ENFILE"))})
        elif r < 0.85 and rng.random() < 0.3:
            faults.append(slow(rng, 80, (10, 40, 150)))
        procs.append(dict(ops=ops, faults=faults,
                          twin=rng.random() < 0.75))
    cfg = dict(keys=keys, hard=hard, tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0, 0.4)))
    return dict(cfg=cfg, procs=procs, max_steps=15000,
                sched=gen_sched(rng, 200 * nproc))


class Made:
    """one object: how it was made, by whom, and what is in it"""

    def __init__(self, kind, owner, h, name):
        self.kind, self.owner, self.h, self.name = kind, owner, h, name
        self.truth = {}             # key -> description, None, or "unknown"
        self.state = "open"
        self.users = 0

    def __repr__(self):
        return f"{self.kind} {self.name!r} of p{self.owner} ({self.state})"


def make(kind, desc, **kw):
    from dustgoggles.codex.implements import Sticky
    if kind == "sticky":
        note = Sticky.note(value_of(kind, desc), **kw)
        return note, note.address
    sub = Subject(kind, True, None, **kw)
    return sub, str(sub.o.name if kind in ("tag", "meta") else sub.o.prefix)


def execute(plan, chooser=None):
    from dustgoggles.codex.implements import Sticky
    cfg = plan["cfg"]
    with SimRun(plan, chooser) as run:
        k = run.k
        board = []
        # processes that meet faults
        hurt = {m for m, spec in enumerate(plan["procs"])
                if any(f["kind"] in ("errno", "interrupt", "kill")
                       for f in spec["faults"])}

        def faulted():
            return who[k.current.pid] in hurt

        who = {}

        def problem(what):
            raise Violation("affected", f"{what}; objects {board}")

        def tried(kind, args, fn, allow=()):
            o = run.h.do(kind, args, fn)
            if not o.ok and o.exc not in allow and not faulted():
                problem(f"{o!r}")
            return o

        def look(made, sub, when):
            if made.kind == "sticky":
                got = tried("read", (made.name,), sub.read)
                want = made.truth[""]
                if got.ok and want != "unknown" and not match(
                        "sticky", want, got.value):
                    problem(f"{when}: {made!r} should hold {want}: {got!r}")
                return
            got = tried("keys", (made.name,), sub.keys)
            if not got.ok:
                return
            for key, v in made.truth.items():
                if v != "unknown" and (v is not None) != (key in got.value):
                    problem(f"{when}: {key!r} is {v} in {made!r}: {got!r}")
                if v is None or v == "unknown":
                    continue
                o = tried("get", (made.name, key), lambda: sub.read(key))
                if o.ok and not match(made.kind, v, o.value):
                    problem(f"{when}: {key!r} is {v} in {made!r}: {o!r}")
            odd = [q for q in got.value if q not in made.truth]
            if odd or len(set(got.value)) != len(got.value):
                problem(f"{when}: keys of {made!r} are {got.value}")

        def act(m, mine, op):
            if op["op"] == "make":
                kw = {"cleanup_on_exit": True} if op["exit"] else {}
                o = tried("make", (op["kind"],),
                          lambda: make(op["kind"], op["val"], **kw))
                if not o.ok:
                    mine.append(None)
                    return
                h, name = o.value
                o.value = name
                made = Made(op["kind"], m, h, name)
                made.exit = op["exit"]
                same = [b for b in board if b.name == name
                        and b.state in ("open", "closing") and family(b.kind) == family(made.kind)]
                if op["kind"] == "sticky":
                    made.truth[""] = op["val"]
                board.append(made)
                mine.append(made)
                if same:
                    problem(f"{made!r} was given the name of {same}")
                return
            if op["op"] == "other":
                there = [b for b in board if b.state == "open" and not b.exit
                         and b.owner != m and b.owner not in hurt]
                if not there:
                    return
                made = there[op["nth"] % len(there)]
                made.users += 1
                try:
                    peek(made)
                finally:
                    made.users -= 1
                return
            made = mine[op["obj"]] if op["obj"] < len(mine) else None
            if made is None or made.state != "open":
                return
            sub = made.h
            if op["op"] == "close":
                if made.users:
                    return
                made.state = "closing"
                o = tried("close", (made.name,), sub.close if
                          made.kind == "sticky" else sub.o.close)
                made.state = "gone" if o.ok else "unknown"
            elif op["op"] == "look":
                look(made, sub, "its maker looks")
            elif op["op"] == "set" and made.kind != "sticky":
                key = op["key"]
                made.truth[key] = "unknown"
                o = tried("set", (made.name, key),
                          lambda: sub.store(key, op["val"]))
                if o.ok:
                    made.truth[key] = op["val"]
            elif op["op"] == "del" and made.kind != "sticky":
                key, had = op["key"], made.truth.get(op["key"])
                made.truth[key] = "unknown"
                o = tried("del", (made.name, key), lambda: (
                    sub.o.remove(key) if made.kind in ("tag", "meta")
                    else sub.o.__delitem__(key)), ("KeyError",))
                if o.ok or had is None and o.exc == "KeyError":
                    made.truth[key] = None
                if had != "unknown" and not faulted() and \
                        o.ok != (had is not None):
                    problem(f"{key!r} was {had} in {made!r}: {o!r}")

        def peek(made):
            """another process's own handle, by name"""
            before = dict(made.truth)
            o = tried("attach", (made.name,), lambda: Sticky(made.name)
                      if made.kind == "sticky" else
                      Subject(made.kind, False, made.name))
            if not o.ok:
                return
            h, o.value = o.value, None
            if made.kind == "sticky":
                got = run.h.do("read", (made.name,), h.read)
                if not faulted() and made.truth == before and \
                        before[""] != "unknown" and not (got.ok and match(
                            "sticky", before[""], got.value)):
                    problem(f"{made!r} holds {before['']}: {got!r}")
                return
            for key, v in before.items():
                # (fails if the key is just being stored)
                o = run.h.do("get", (made.name, key), lambda: h.read(key))
                if v == "unknown" or made.truth[key] is not v or faulted():
                    continue
                if not o.ok and o.exc not in ("KeyError",
                                              "FileNotFoundError"):
                    problem(f"{o!r}")
                if (v is None) != (not o.ok or o.value is False) or \
                        o.ok and v is not None and not match(
                            made.kind, v, o.value):
                    problem(f"{key!r} is {v} in {made!r}: {o!r}")

        def body(m, spec):
            def fn(p):
                who[p.pid] = m
                if spec["twin"]:
                    p.space.rng = random.Random("twin")
                mine = []
                try:
                    for op in spec["ops"]:
                        act(m, mine, op)
                    for made in mine:
                        if made is not None and made.state == "open" \
                                and made.exit:
                            made.state = "leaving"
                except Violation as v:
                    run.fail(v.cls, v.msg)
            return fn

        procs = [k.spawn(body(m, spec), faults=spec["faults"])
                 for m, spec in enumerate(plan["procs"])]
        run.go()
        run.require_end("working")
        for m, p in enumerate(procs):
            if p.space.exit_errors and m not in hurt:
                raise Violation("exit-error", f"{p.space.exit_errors}")
        for made in board:
            if made.state == "leaving" and made.owner not in hurt:
                made.state = "gone"
            elif made.owner in hurt and made.exit:
                made.state = "unknown"

        def check(p):
            who[p.pid] = -1
            for made in board:
                if made.state == "open" and made.owner not in hurt:
                    look(made, Sticky(made.name) if made.kind == "sticky"
                         else Subject(made.kind, False, made.name), "at rest")
            for made in board:
                if made.state == "open" and made.owner not in hurt:
                    h = Sticky(made.name) if made.kind == "sticky" else \
                        Subject(made.kind, False, made.name).o
                    tried("close", (made.name,), h.close)
        run.solo(check, "looking at rest, and closing")
        if not hurt:
            left = run.w.blocks("")
            if left:
                raise Violation("left-behind", f"{left}; objects {board}")
    return run.out


def family(kind):
    """what keeps its entries at like addresses"""
    return "index" if kind in ("tag", "meta") else \
        "sticky" if kind == "sticky" else "pad"
