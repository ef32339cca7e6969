"""C26 objects under different names do not affect each other."""
from sim.base import SimRun, Violation, gen_sched, names, slow
from sim.props import c06
from sim.props.c06 import Subject, match, value_of

ID = "C26"
RULE = ("each run: 2-4 objects (notepads, grid papers, indexes, stickies, "
        "locks) under similar names, holding the same keys, are used at once "
        "by 1-4 processes, some of which use several objects, also one while "
        "it holds or stores into another; one object's users may be killed or "
        "meet failing system calls, and objects are closed, or removed at a "
        "process's exit, one after another; all other objects must go on as "
        "if they were alone")
REAL = ["dustgoggles.codex.implements.*", "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib)"]
STUB = c06.STUB
ASSUMPTIONS = ["processes share one resource tracker",
               "no object's name extends another's by an underscore and more "
               "(their addresses may then coincide)",
               "each entry has one writing process",
               "who holds several locks takes them in one order"]
QUICK, THOROUGH = 6000, 200000
KINDS = ("notepad", "notepad", "notemeta", "grid", "tag", "meta", "sticky",
         "lock")
FAMILIES = (("pad", "pad2", "pad.2", "Pad", "pa", "padd", "2pad"),
            ("a", "b", "aa", "ab", "aaa"),
            ("run1", "run10", "run100", "run", "run01"),
            ("1", "11", "12", "111", "2"),
            ("\u706b", "\u661f", "\u706b\u661f", "e\u0301", "\u00e9"),
            ("index", "indices", "key", "val", "name", "count"),
            ("x" * 40, "x" * 41, "x" * 40 + "y", "y" * 40))


def gen_val(rng, kind, n):
    while True:
        desc = c06.gen_val(rng, kind, n)
        if kind != "sticky" or value_of(kind, desc) is not None:
            return desc


def gen(rng, i, tier):
    nobj = rng.choice((2, 2, 3, 4))
    family = list(rng.choice(FAMILIES))
    rng.shuffle(family)
    objs = [dict(kind=rng.choice(KINDS), name=family[j])
            for j in range(nobj)]
    if rng.random() < 0.4:          # twins
        for o in objs:
            o["kind"] = objs[0]["kind"]
    keys = [str(k) for k in names(rng, rng.choice((1, 2, 3)))]
    # what happens to object 0's users
    harm = rng.choice(("none", "none", "kill", "errno"))
    nproc = rng.choice((1, 2, 2, 3, 4)) if harm == "none" else \
        rng.choice((2, 3, 4))
    n, setup = 0, []
    for j, o in enumerate(objs):
        for k in keys:
            if o["kind"] != "lock" and rng.random() < 0.7:
                n += 1
                setup.append(dict(obj=j, key=k, val=gen_val(rng, o["kind"], n)))
    rng.shuffle(setup)
    procs = []
    for m in range(nproc):
        if harm == "none":
            mine = list(range(nobj))
            rng.shuffle(mine)
            mine = sorted(mine[:rng.choice((1, 2, 2, nobj))])
        elif m == 0:
            mine = [0]
        else:
            mine = rng.choice(([0], list(range(1, nobj)),
                               list(range(1, nobj))))
        ops = []
        for _ in range(rng.choice((2, 4, 6))):
            n += 1
            ops.append(gen_op(rng, objs, keys, rng.choice(mine), mine, n, 0))
        faults = []
        if mine == [0] and harm == "kill" and (m == 0 or rng.random() < 0.3):
            faults.append(dict(kind="kill", at=rng.choice((
                rng.randint(1, 30), rng.randint(1, 100)))))
        elif mine == [0] and harm == "errno":
            faults.append({"kind": "errno", "from": rng.randint(1, 60),
                           "calls": rng.choice((["create"], ["open"],
                                                ["create", "open"])),
                           "times": rng.choice((1, 2, 6, 100)),
                           "errno": rng.choice(("EMFILE", "ENFILE"))})
        elif rng.random() < 0.1:
            faults.append(slow(rng, 80, (10, 40, 150)))
        if rng.random() < 0.08:     # while it holds the lock
            faults.append(dict(kind="pause", call="mark", nth=rng.randint(
                1, 3), secs=rng.choice((20, 90))))
        procs.append(dict(ops=ops, faults=faults, objs=mine))
    order = list(range(1 if harm != "none" else 0, nobj))
    rng.shuffle(order)
    cfg = dict(objs=objs, keys=keys, harm=harm,
               endings=[dict(obj=j, how=rng.choice(("close", "close", "exit")),
                             also=rng.sample(order, rng.randint(
                                 0, len(order))) if rng.random() < 0.3 else [],
                             both=rng.random() < 0.5,
                             busy=rng.random() < 0.6) for j in order],
               tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0, 0.4)))
    return dict(cfg=cfg, setup=setup, procs=procs, max_steps=15000,
                sched=gen_sched(rng, 200 * nproc))


def gen_op(rng, objs, keys, j, mine, n, depth):
    kind = objs[j]["kind"]
    after = [q for q in mine if q > j]
    inner = None
    if depth < 2 and after and rng.random() < 0.5:
        inner = gen_op(rng, objs, keys, rng.choice(after), mine,
                       n * 100 + depth + 1, depth + 1)
    if kind == "lock":
        return dict(op="hold", obj=j, inner=inner)
    key = rng.choice(keys)
    r = rng.random()
    if r < 0.5:
        return dict(op="set", obj=j, key=key, val=gen_val(rng, kind, n),
                    inner=inner if kind in ("notepad", "notemeta") else None)
    if r < 0.65:
        return dict(op="del", obj=j, key=key)
    if r < 0.8 and kind != "sticky":
        return dict(op="list", obj=j)
    return dict(op="get", obj=j, key=key)


class Carrier:
    """a value that does something while it is being stored"""

    def __init__(self, value, fn):
        self.value, self.fn = value, fn

    def __reduce__(self):
        self.fn()
        return _plain, (self.value,)


def _plain(value):
    return value


class Things:
    """one process's own handles to all objects"""

    def __init__(self, cfg, create=False, only=None, **kw):
        from dustgoggles.codex.implements import SlidingLock
        self.o = {}
        for j, o in enumerate(cfg["objs"]):
            if only is not None and j not in only:
                continue
            self.o[j] = SlidingLock(o["name"]) if o["kind"] == "lock" else \
                Subject(o["kind"], create, o["name"], **kw)


def execute(plan, chooser=None):
    from dustgoggles.codex.implements import Sticky
    cfg = plan["cfg"]
    objs, harm = cfg["objs"], cfg["harm"]
    hurt = {0} if harm != "none" else set()
    with SimRun(plan, chooser) as run:
        k = run.k
        truth = {}              # (obj, writer, key) -> description
        notes = {}
        inside = {}

        def key_of(m, key):
            return f"{key}~{m}"

        def prepare(p):
            t = Things(cfg, True)
            for op in plan["setup"]:
                key = key_of("s", op["key"])
                t.o[op["obj"]].store(key, op["val"])
                truth[op["obj"], "s", key] = op["val"]
            for j, h in t.o.items():
                notes[j] = getattr(h, "notes", {})
        run.solo(prepare, "filling")

        def problem(op, what):
            raise Violation("affected", f"{objs[op['obj']]}: {op}: {what}; "
                            f"objects {objs}")

        def tried(op, fn, allow=()):
            """fn's result, or the permitted exception it raised"""
            o = run.h.do(op["op"], (op["obj"], op.get("key")), fn)
            if not o.ok and o.exc not in allow and op["obj"] not in hurt:
                problem(op, f"{o.exc}: {o.msg}")
            return o

        def act(m, t, op):
            j = op["obj"]
            h, kind = t.o[j], objs[j]["kind"]
            soft = j in hurt
            more = (lambda: act(m, t, op["inner"])) if op.get("inner") \
                else None
            if op["op"] == "hold":
                def hold():
                    with h:
                        if inside.get(j) and not soft:
                            raise Violation("both-inside", f"{objs[j]}")
                        inside[j] = True
                        k.mark("inside")
                        if more is not None:
                            more()
                        inside[j] = False
                try:
                    o = tried(op, hold)
                finally:
                    inside[j] = False
                return
            key = key_of(m, op["key"]) if op["op"] != "list" else None
            me = (j, m, key)
            if op["op"] == "set":
                truth_now = truth.get(me)
                truth[me] = "unknown"
                if more is not None:
                    v = Carrier(value_of(kind, op["val"]), more)
                    o = tried(op, lambda: h.o.set(key, v))
                else:
                    o = tried(op, lambda: h.store(key, op["val"]))
                truth[me] = op["val"] if o.ok else "unknown"
                del truth_now
            elif op["op"] == "del":
                had = truth.get(me)
                if kind == "sticky":
                    if had is None:
                        return
                    o = tried(op, lambda: Sticky(
                        f"{h.name}_{key}").close())
                    h.notes.pop(key, None)
                elif kind in ("tag", "meta"):
                    o = tried(op, lambda: h.o.remove(key), ("KeyError",))
                else:
                    o = tried(op, lambda: h.o.__delitem__(key), ("KeyError",))
                if not soft and o.ok != (had is not None) \
                        and had != "unknown":
                    problem(op, f"{key!r} was {had}, removal {o!r}")
                truth[me] = None if o.ok or not soft else "unknown"
            elif op["op"] == "list":
                o = tried(op, h.keys)
                if o.ok and not soft:
                    listing(j, m, o.value, op)
            else:
                o = tried(op, lambda: h.read(key),
                          ("KeyError", "FileNotFoundError"))
                if not soft:
                    look(j, kind, me, o, op)

        def look(j, kind, me, o, op):
            want = truth.get(me)
            if want == "unknown":
                return
            if want is None:
                if o.ok and o.value not in (None, False):
                    problem(op, f"{me} should be missing: {o!r}")
            elif not o.ok or not match(kind, want, o.value):
                problem(op, f"{me} should be {want}: {o!r}")

        def listing(j, m, got, op):
            if len(set(got)) != len(got):
                problem(op, f"keys {got}")
            for (q, w, key), v in list(truth.items()):
                if q != j or v == "unknown" or w not in (m, "s"):
                    continue
                if (v is not None) != (key in got):
                    problem(op, f"{key!r} is {v}: keys {got}")
            owners = {f"~{w}" for w in ("s", *range(len(plan["procs"])))}
            for key in got:
                if not any(key.endswith(e) for e in owners) or (
                        not any(key == q[2] for q in truth if q[0] == j)):
                    problem(op, f"keys {got} include {key!r}")

        def body(m, spec):
            def fn(p):
                try:
                    t = Things(cfg, only=spec["objs"])
                    for op in spec["ops"]:
                        act(m, t, op)
                except Violation as v:
                    run.fail(v.cls, v.msg)
                except (OSError, ValueError) as ex:
                    if 0 not in spec["objs"] or not hurt:
                        run.fail("affected", f"opening {spec['objs']}: {ex!r}"
                                 f"; objects {objs}")
            return fn

        procs = [k.spawn(body(m, spec), faults=spec["faults"])
                 for m, spec in enumerate(plan["procs"])]
        run.go()
        if k.outcome in ("stuck", "stepcap"):
            late = [m for m, spec in enumerate(plan["procs"])
                    if harm != "kill" or 0 not in spec["objs"]
                    if any(o.pid == procs[m].pid and o.ret is None
                           for o in run.h.ops)]
            if late or harm != "kill":
                raise Violation("no-progress", f"ended {k.outcome}; processes "
                                f"{late} never finish; objects {objs}")
        # those who were killed or cut off no longer hold what they held
        gone = set()

        def check(p, when):
            t = Things(cfg, only=[j for j in range(len(objs))
                                  if j not in gone | hurt])
            for j, h in t.o.items():
                op = dict(op=when, obj=j)
                kind = objs[j]["kind"]
                if kind == "lock":
                    act("f", t, dict(op="hold", obj=j))
                    continue
                if kind != "sticky":
                    got = tried(op, h.keys).value
                    want = sorted(q[2] for q, v in truth.items()
                                  if q[0] == j and v is not None)
                    if sorted(got) != want:
                        problem(op, f"keys {got}, not {want}")
                for me in [q for q in truth if q[0] == j]:
                    o = tried(dict(op, key=me[2]), lambda: h.read(me[2]),
                              ("KeyError", "FileNotFoundError"))
                    look(j, kind, me, o, op)
        run.solo(lambda p: check(p, "at rest"), "looking at rest")
        for e in cfg["endings"]:
            j = e["obj"]
            if j in gone:
                continue
            also = [q for q in e.get("also", ()) if q not in gone | hurt
                    and q != j and objs[q]["kind"] not in ("lock", "sticky")]
            end(run, cfg, e, truth, notes, gone | hurt, also, tried,
                act)
            gone |= {j, *also}
            run.solo(lambda p: check(p, f"after closing {objs[j]['name']}"),
                     "looking after closing")
        if not hurt:
            left = run.w.blocks("")
            if left:
                raise Violation("left-behind", f"{left} of {objs}")
    return run.out


def end(run, cfg, e, truth, notes, away, also, tried, act):
    """close one object while others are being used"""
    from dustgoggles.codex.implements import Sticky
    j, objs, k = e["obj"], cfg["objs"], run.k
    o = objs[j]
    others = [q for q in range(len(objs)) if q != j and q not in away
              and q not in also]

    def close(p):
        try:
            op = dict(op="close", obj=j)
            if also:        # to be removed when this process exits
                tried(op, lambda: Things(cfg, only=also,
                                         cleanup_on_exit=True))
            if o["kind"] == "sticky":
                for q, v in sorted(truth.items(), key=str):
                    if q[0] == j and v is not None:
                        tried(op, lambda: Sticky(f"{o['name']}_{q[2]}")
                              .close())
            elif o["kind"] == "lock":
                tried(op, Things(cfg, only=[j]).o[j].close)
            elif e["how"] == "exit":
                tried(op, lambda: Things(cfg, only=[j], cleanup_on_exit=True))
            else:
                tried(op, Things(cfg, only=[j], cleanup_on_exit=e.get(
                    "both", False)).o[j].o.close)
        except Violation as v:
            run.fail(v.cls, v.msg)

    def use(p):
        try:
            t = Things(cfg, only=others)
            for n, q in enumerate(others * 2):
                if objs[q]["kind"] == "lock":
                    act("e", t, dict(op="hold", obj=q))
                    continue
                for (a, w, key), v in list(truth.items()):
                    if a == q and w == "s" and v is not None:
                        act("s", t, dict(op="get", obj=q, key=key[:-2]))
                if objs[q]["kind"] != "sticky":
                    act("s", t, dict(op="list", obj=q))
        except Violation as v:
            run.fail(v.cls, v.msg)

    p = k.spawn(close)
    if e["busy"] and others:
        k.spawn(use)
    run.go()
    run.require_end("closing, and using the others")
    if p.space.exit_errors:
        raise Violation("exit-error", f"{o}: {p.space.exit_errors}")
