"""C29 names that are used again."""
from sim.base import SimRun, Violation, gen_sched, names, slow
from sim.props import c06
from sim.props.c06 import Subject, match
from sim.props.c28 import gen_val

ID = "C29"
RULE = ("each run: 2-4 objects (notepad, grid paper, index, sticky) live one "
        "after another under one name: made by one of 1-4 processes, used by "
        "several at once, then closed by one or more of them or cleaned up "
        "at their exit; processes of earlier objects exit or vanish while a "
        "later one is used; each object must hold what was put in it, and "
        "nothing else")
REAL = ["dustgoggles.codex.implements.*", "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib)"]
STUB = c06.STUB + ["exit hooks"]
ASSUMPTIONS = ["processes share one resource tracker",
               "each entry has one writing process",
               "nobody uses an object while or after it is closed, except to "
               "close it as well",
               "a process that asked for cleanup on exit exits, is killed or "
               "closes the object before the name is used again"]
QUICK, THOROUGH = 8000, 250000
KINDS = ("notepad", "notepad", "notemeta", "grid", "tag", "meta", "sticky")


def gen(rng, i, tier):
    nproc = rng.choice((1, 2, 2, 3, 4))
    keys = [str(k) for k in names(rng, rng.choice((2, 3, 5)))]
    few = [rng.choice(KINDS)] if rng.random() < 0.6 else KINDS
    lives, n = [], 0
    alive = list(range(nproc))
    for _ in range(rng.choice((2, 2, 3, 4))):
        if not alive:
            break
        kind = rng.choice(few)
        here = rng.sample(alive, rng.randint(1, len(alive)))
        away = [m for m in alive if m not in here]
        owner = {k: rng.choice(here) for k in keys}
        if kind == "sticky":
            owner = dict.fromkeys(keys, here[0])
        users = []
        for m in here:
            ops = []
            for _ in range(rng.choice((0, 1, 3, 5))):
                n += 1
                r, key = rng.random(), rng.choice(keys)
                mine = [k for k in keys if owner[k] == m]
                if r < 0.55 and mine:
                    ops.append(dict(op="set", key=rng.choice(mine),
                                    val=gen_val(rng, kind, n)))
                elif r < 0.65 and mine:
                    ops.append(dict(op="del", key=rng.choice(mine)))
                elif r < 0.85:
                    ops.append(dict(op="get", key=key))
                else:
                    ops.append(dict(op="keys"))
            users.append(dict(m=m, ops=ops, cleanup=rng.random() < 0.4,
                              end=None))
        # everyone who asked for cleanup closes it, exits or is killed
        for u in users:
            r = rng.random()
            if u["cleanup"]:
                u["end"] = "exit" if r < 0.5 else "close" if r < 0.85 else \
                    "vanish"
            elif r < 0.3:
                u["end"] = "close"
        if not any(u["end"] in ("exit", "close") for u in users):
            rng.choice(users)["end"] = "close"
        hard = None
        if rng.random() < 0.3:
            hard = dict(kind="errno", call=rng.choice(
                ("create", "open", "trunc", "mmap")), nth=rng.randint(1, 3),
                times=rng.choice((1, 1, 2, 5)), errno=rng.choice(
                    ("EMFILE", "ENFILE", "ENOMEM", "ENOSPC")))
        leave = [dict(m=m, how=rng.choice(("exit", "exit", "vanish")))
                 for m in away if rng.random() < 0.4]
        for u in users:
            if u["end"] in ("exit", "vanish"):
                alive.remove(u["m"])
        for u in leave:
            alive.remove(u["m"])
        # nobody is left: somebody new comes
        while len(alive) < 1 or rng.random() < 0.2:
            alive.append(nproc)
            nproc += 1
        lives.append(dict(kind=kind, users=users, leave=leave,
                          hard=hard, eager=rng.random() < 0.3,
                          together=rng.random() < 0.6))
    faults = []
    if rng.random() < 0.2:
        faults.append(slow(rng, 60, (10, 40, 150)))
    cfg = dict(keys=keys, tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0, 0.4)))
    return dict(cfg=cfg, procs=[dict(ops=lives, faults=faults)],
                max_steps=20000, sched=gen_sched(rng, 300))


def simpler(plan):
    import copy
    for j, life in enumerate(plan["procs"][0]["ops"]):
        for i, u in enumerate(life["users"]):
            for x in range(len(u["ops"])):
                q = copy.deepcopy(plan)
                del q["procs"][0]["ops"][j]["users"][i]["ops"][x]
                yield q
            if not u["cleanup"] and any(
                    v["end"] in ("exit", "close") for v in life["users"]
                    if v is not u) and i > 0:
                q = copy.deepcopy(plan)
                del q["procs"][0]["ops"][j]["users"][i]
                yield q
        for i in range(len(life["leave"])):
            q = copy.deepcopy(plan)
            q["procs"][0]["ops"][j]["leave"][i]["how"] = "vanish"
            if q != plan:
                yield q


class Handle:
    """what one process has of one object"""

    def __init__(self, kind, create, cleanup, eager=False):
        self.kind, self.cleanup, self.notes = kind, cleanup, {}
        if kind != "sticky":
            kw = dict(update_on_init=True) if eager and kind not in (
                "tag", "meta") else {}
            self.sub = Subject(kind, create, "subj", cleanup_on_exit=cleanup,
                               **kw)

    def store(self, key, desc):
        if self.kind != "sticky":
            return self.sub.store(key, desc)
        from dustgoggles.codex.implements import Sticky
        v = c06.value_of("sticky", desc)
        if key in self.notes:
            self.notes[key].stick(v)
        else:
            self.notes[key] = Sticky.note(v, f"subj_{key}",
                                          cleanup_on_exit=self.cleanup)

    def read(self, key):
        if self.kind == "sticky":
            from dustgoggles.codex.implements import Sticky
            got = Sticky(f"subj_{key}").read()
            if got is None:
                raise KeyError(key)
            return got
        got = self.sub.read(key)
        if got is False and self.kind == "tag":
            raise KeyError(key)
        return got

    def drop(self, key):
        if self.kind == "sticky":
            return self.notes.pop(key).pull()
        if self.kind in ("tag", "meta"):
            return self.sub.o.remove(key)
        del self.sub.o[key]

    def close(self):
        if self.kind == "sticky":
            for key in sorted(self.notes):
                self.notes.pop(key).close()
        else:
            self.sub.o.close()


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    with SimRun(plan, chooser) as run:
        people = {}                     # m -> (space, its exit hooks)
        for nth, life in enumerate(plan["procs"][0]["ops"]):
            live(run, cfg, plan["procs"][0]["faults"], nth, life, people)
    return run.out


def during(run, people, m, fn, faults=()):
    """let process m, which lives on, do something"""
    def body(p):
        p.space.atexit[:] = people[m][1] if m in people else []
        try:
            fn(p)
        except Violation as v:
            run.fail(v.cls, v.msg)
        people[m] = p.space, list(p.space.atexit)
        p.space.atexit.clear()
    run.k.spawn(body, faults=faults,
                space=people[m][0] if m in people else None)


def leave(run, people, m, how, fn=None):
    """process m exits, or is killed while it does nothing"""
    space, hooks = people.pop(m, (None, []))
    if how == "exit" and space is not None:
        def body(p):
            p.space.atexit[:] = hooks
            if fn is not None:
                fn(p)
        run.k.spawn(body, space=space)


def live(run, cfg, faults, nth, life, people):
    kind, users = life["kind"], life["users"]
    handles = {}
    truth = {k: [] for k in cfg["keys"]}    # all that was stored, in order
    changes = dict.fromkeys(cfg["keys"], 0)
    now = dict.fromkeys(cfg["keys"])        # what is there, once all is quiet
    where = f"object {nth + 1} ({kind})"

    def failed(cls, what):
        raise Violation(cls, f"{where}: {what}")

    def get(h, key):
        seen = changes[key]
        o = run.h.do("get", (nth, key), lambda: h.read(key))
        if seen % 2 or changes[key] != seen:    # it overlaps a change
            run.k.probe("overlap")
            if not o.ok or kind == "grid":
                return o
        if not o.ok:
            if o.exc not in ("KeyError", "FileNotFoundError"):
                failed("op-error", f"{o!r}")
        elif not any(match(kind, d, o.value) for d in truth[key]):
            failed("stranger", f"{o!r}, but what was stored under {key!r} "
                   f"in it is {truth[key]}")
        return o

    def listing(h):
        o = run.h.do("keys", (nth,), h.sub.keys)
        if not o.ok:
            failed("op-error", f"{o!r}")
        odd = [k for k in o.value if not truth.get(k)]
        if odd or len(set(o.value)) != len(o.value):
            failed("stranger", f"{o!r}: only {list(filter(truth.get, truth))}"
                   f" were stored in it")
        return o.value

    def look(h, when):
        for key in cfg["keys"]:
            o = get(h, key)
            if o.ok != (now[key] is not None) or \
                    o.ok and not match(kind, now[key], o.value):
                failed("lost", f"{when}: {key!r} should be {now[key]}: {o!r}")
        if kind != "sticky":
            want = [k for k in now if now[k] is not None]
            if sorted(listing(h)) != sorted(want):
                failed("lost", f"{when}: the keys should be {want}")

    def make(p):
        u = users[0]
        o = run.h.do("make", (nth, kind, u["cleanup"]), lambda: Handle(
            kind, True, u["cleanup"], life["eager"]))
        if not o.ok and life["hard"] and run.k.fault_counts:
            # what failed can be repeated
            p.call_faults = {}
            o = run.h.do("make", (nth, kind, u["cleanup"]), lambda: Handle(
                kind, True, u["cleanup"], life["eager"]))
        p.call_faults = {}
        if not o.ok:
            failed("not-made", f"{o!r}")
        handles[u["m"]] = o.value
        o.value = None
        look(handles[u["m"]], "just made")

    def work(u):
        def fn(p):
            if u["m"] not in handles:
                o = run.h.do("attach", (nth, kind, u["cleanup"]),
                             lambda: Handle(kind, False, u["cleanup"]))
                if not o.ok:
                    failed("not-attached", f"{o!r}")
                handles[u["m"]] = o.value
                o.value = None
            h = handles[u["m"]]
            for op in u["ops"]:
                key = op.get("key")
                if op["op"] == "set":
                    truth[key].append(op["val"])
                    changes[key] += 1
                    o = run.h.do("set", (nth, key, op["val"]),
                                 lambda: h.store(key, op["val"]))
                    o.value = None
                    if not o.ok:
                        failed("op-error", f"{o!r}")
                    now[key] = op["val"]
                    changes[key] += 1
                elif op["op"] == "del":
                    if kind == "sticky" and key not in h.notes:
                        continue
                    changes[key] += 1
                    o = run.h.do("del", (nth, key), lambda: h.drop(key))
                    changes[key] += 1
                    if o.ok != (now[key] is not None):
                        failed("op-error", f"{key!r} was {now[key]}: {o!r}")
                    now[key] = None
                elif op["op"] == "get":
                    get(h, key)
                elif kind != "sticky":
                    listing(h)
        return fn

    during(run, people, users[0]["m"], make,
           [life["hard"]] if life["hard"] else ())
    finished(run, f"making {where}")
    for u in users:
        during(run, people, u["m"], work(u), faults if nth else ())
    for who in life["leave"]:
        leave(run, people, who["m"], who["how"])
    finished(run, f"using {where}")
    run.solo(lambda p: look(Handle(kind, False, False), "at rest"),
             "looking at it")
    finished(run, f"looking at {where}")
    for u in users:
        h = handles[u["m"]]

        def close(p, h=h):
            o = run.h.do("close", (nth,), h.close)
            if not o.ok:
                failed("close-error", f"{o!r}")

        if u["end"] == "close":
            during(run, people, u["m"], close)
        elif u["end"] is not None:
            if kind == "sticky" and u["end"] == "vanish":
                # its notes are for somebody else to remove
                def close(p, h=h):
                    from dustgoggles.codex.implements import Sticky
                    for key in list(h.notes):
                        Sticky(f"subj_{key}").pull()
                run.solo(close, "peeling its notes")
            leave(run, people, u["m"], u["end"])
        elif kind == "sticky":
            during(run, people, u["m"], close)
        if not life["together"]:
            finished(run, f"closing {where}")
    finished(run, f"closing {where}")
    left = run.w.blocks("subj")
    if left:
        failed("left-behind", f"closed, but {left} are there")


def finished(run, what):
    run.go()
    run.require_end(what)
    if run.viol is not None:
        raise Violation(*run.viol)
    for p in run.k.procs:
        if p.space.exit_errors:
            raise Violation("exit-error", f"{what}: {p.space.exit_errors}")
