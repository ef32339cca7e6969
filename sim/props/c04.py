"""C04 listings taken while keys come and go."""
import json

from sim.base import SimRun, Violation, gen_sched, lack, given, lacking, names, slow

ID = "C04"
RULE = ("each run: 1-3 processes add and remove keys of one index, notepad or "
        "grid paper while 1-2 others list it; every listing is compared with "
        "the intervals in which each key can have been present")
REAL = ["dustgoggles.codex.implements.TagIndex, MetaTagIndex, Notepad, "
        "GridPaper, SlidingLock", "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker",
               "a copy to or from a block happens in up to five parts, in "
               "any order; 8 bytes or fewer are copied at once",
               "for notepads and grid papers each key has one writing process"]
QUICK, THOROUGH = 20000, 300000


def two_stalls(rng):
    at = rng.randint(6, 40)
    return [dict(kind="stall", at=t, **{"for": rng.randint(20, 120)})
            for t in (at, at + rng.randint(1, 8))]


def gen_reuse(rng):
    """a few keys take turns in the same slots while a lister is held up"""
    keys = [str(k) for k in names(rng, rng.choice((2, 2, 3)))]
    setup = keys[:rng.choice((0, 1))]
    present, ops, cur = set(setup), [], None
    for tag in range(1, rng.choice((7, 10, 14))):
        if present and rng.random() < 0.9:
            cur = sorted(present)[-1] if rng.random() < 0.8 \
                else rng.choice(sorted(present))
            ops.append(dict(op="remove", key=cur, tag=tag))
            present.discard(cur)
        else:
            cur = rng.choice([k for k in keys if k not in present
                              and k != cur] or keys)
            if cur in present:
                continue
            ops.append(dict(op="add", key=cur, tag=tag))
            present.add(cur)
    procs = [dict(ops=ops, faults=[])]
    for _ in range(rng.choice((1, 1, 2))):
        procs.append(dict(
            ops=[dict(op="list", how=rng.choice(("items", "values", "items",
                                                 "keys")), gap=0)
                 for _ in range(rng.choice((2, 4)))],
            faults=two_stalls(rng),
            lister=True, thread=False))
    cfg = dict(kind="meta", owned=True, tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0, 0.5)))
    return dict(cfg=cfg, setup=setup, procs=procs, max_steps=20000,
                sched=gen_sched(rng, 200 * len(procs)))


def gen(rng, i, tier):
    if rng.random() < 0.15:
        return gen_reuse(rng)
    kind = rng.choice(("tag", "tag", "meta", "meta", "notepad", "grid"))
    nmut = rng.choice((1, 1, 2, 2, 3))
    nlist = rng.choice((1, 1, 2))
    keys = names(rng, rng.choice((2, 3, 4, 6)),
                 "free" if kind in ("tag", "meta") and rng.random() < 0.08
                 else None)
    owned = kind in ("notepad", "grid") or rng.random() < 0.4
    setup = [k for k in keys if rng.random() < 0.5] + \
        [f"fill{n}" for n in range(rng.choice(
            (129, 256, 270) if i % 300 == 99 else (0, 1, 2, 3)))]
    rng.shuffle(setup)
    pool = keys + [k for k in setup if k not in keys]
    removals = rng.random() < 0.7
    procs, tag = [], 0
    for m in range(nmut):
        mine = [k for n, k in enumerate(pool) if n % nmut == m] \
            if owned else pool
        present = {str(k) for k in setup}
        ops = []
        for _ in range(rng.choice((1, 2, 3, 6))):
            if not mine:
                break
            key = rng.choice(mine)
            tag += 1
            if owned:
                what = "remove" if str(key) in present else "add"
                if what == "remove" and not removals:
                    continue
                present ^= {str(key)}
            else:
                what = rng.choice(("add", "remove") if removals else ("add",))
            ops.append(dict(op=what, key=key, tag=tag))
        procs.append(dict(ops=ops, faults=[]))
    how = dict(tag=("update",), meta=("update", "keys", "items", "values")
               if owned else ("update", "keys"),
               notepad=("keys", "iterkeys", "update_index", "str",
                        "nested"),
               grid=("keys", "iterkeys", "index.keys"))[kind]
    for _ in range(nlist):
        procs.append(dict(ops=[dict(op="list", how=rng.choice(how),
                                    gap=rng.choice((0, 0, 2, 5)))
                               for _ in range(rng.choice((1, 2, 4)))],
                          faults=[], lister=True,
                          thread=rng.random() < 0.25))
    for p in procs:
        if rng.random() < 0.12:
            p["faults"].append(slow(rng, 80, (10, 40, 150)))
        elif p.get("lister") and rng.random() < 0.1:
            p.update(faults=[lack(rng)], lack=True, thread=False)
    rng.shuffle(procs)
    cfg = dict(kind=kind, owned=owned, tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0, 0.3, 0.9)))
    return dict(cfg=cfg, setup=setup, procs=procs,
                max_steps=2000000 if len(setup) > 100 else 20000,
                sched=gen_sched(rng, 200 * len(procs)))


def meta_value(key, tag):
    return {"k": str(key), "tag": tag, "pad": "p" * (tag * 7 % 23)}


class Subject:
    """one process's handle on the thing being listed"""

    def __init__(self, kind, create):
        from dustgoggles.codex import implements as im
        self.kind, self.kept = kind, []
        cls = dict(tag=im.TagIndex, meta=im.MetaTagIndex, notepad=im.Notepad,
                   grid=im.GridPaper)[kind]
        self.o = cls("subj", create=create)

    def add(self, key, tag):
        if self.kind == "tag":
            self.o.add(given(key))
        elif self.kind == "meta":
            self.o.add(given(key), meta_value(key, tag))
        elif self.kind == "notepad":
            self.o.set(given(key), ("v", tag))
        else:
            import numpy as np
            self.o.set(given(key), np.arange(tag, tag + 3))

    def remove(self, key):
        if self.kind in ("tag", "meta"):
            self.o.remove(given(key))
        else:
            del self.o[given(key)]

    def keep(self, got):
        copy = list(got)
        if isinstance(got, list):   # the caller's from now on
            self.kept.append((got, copy))
        return copy

    def list(self, how):
        o = self.o
        if how == "nested":     # listing anew while going through a list
            got = []
            for k in o.iterkeys():
                got.append(k)
                self.keep(o.keys())
            return got
        if how == "update":
            return self.keep(o.update())
        if how == "keys":
            return self.keep(o.keys())
        if how == "iterkeys":
            return list(o.iterkeys())
        if how == "update_index":
            return self.keep(o.update_index())
        if how == "index.keys":
            return self.keep(o.index.keys())
        if how == "str":
            return str(o)
        if how == "items":
            return [(k, json.dumps(v)) for k, v in o.items()]
        if how == "values":
            return [json.dumps(v) for v in o.values()]


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    kind = cfg["kind"]
    with SimRun(plan, chooser) as run:
        def prepare(p):
            s = Subject(kind, True)
            for n, key in enumerate(plan["setup"]):
                run.h.do("add", (str(key), 1000 + n),
                         lambda: s.add(key, 1000 + n))
        run.solo(prepare, "filling")
        shared = [None, None]

        def body(spec, s):
            def fn(p):
                with lacking(p, spec):
                    me = s if s is not None else Subject(kind, False)
                for op in spec["ops"]:
                    if op["op"] == "list":
                        run.h.do("list", (op["how"],),
                                 lambda: me.list(op["how"]))
                        for _ in range(op["gap"]):
                            run.k.mark("gap")
                    elif op["op"] == "add":
                        run.h.do("add", (str(op["key"]), op["tag"]),
                                 lambda: me.add(op["key"], op["tag"]))
                    else:
                        run.h.do("remove", (str(op["key"]),),
                                 lambda: me.remove(op["key"]))
                for got, was in me.kept:
                    if got != was:
                        run.fail("changed-list", f"a list given as {was} "
                                 f"has become {got}")
            return fn

        for spec in plan["procs"]:
            if spec.get("thread"):
                if shared[0] is None:
                    shared[0] = Subject(kind, False)
                p = run.k.spawn(body(spec, shared[0]), faults=spec["faults"],
                                space=shared[1])
                shared[1] = p.space
            else:
                run.k.spawn(body(spec, None), faults=spec["faults"])
        run.go()
        run.require_end("listings and updates")
        judge(run, cfg)
    return run.out


def judge(run, cfg):
    ops = run.h.ops
    adds = [o for o in ops if o.kind == "add"]
    rems = [o for o in ops if o.kind == "remove" and (o.ok or not o.done())]
    for o in ops:
        if not o.ok and not (o.kind == "remove" and o.exc == "KeyError") \
                and not (o.hit and o.exc == "OSError"):
            raise Violation(f"{o.kind}-error", f"{o!r}")
    known = {o.args[0] for o in adds}
    for ls in ops:
        if ls.kind != "list" or not ls.ok:
            continue
        how = ls.args[0]
        got = ls.value
        if how == "str":
            lost = [k for k in known if must(k, ls, adds, rems)
                    and repr(k) not in got]
            if lost:
                raise Violation("missing", f"{ls!r} lacks {lost}")
            continue
        if how == "values":
            allowed = {json.dumps(meta_value(*a.args)) for a in adds}
            for v in got:
                if v not in allowed:
                    raise Violation("invented-value", f"{ls!r}: {v}")
            continue
        if how == "items":
            for key, v in got:
                allowed = {json.dumps(meta_value(*a.args)) for a in adds
                           if a.args[0] == key}
                if v not in allowed:
                    raise Violation("wrong-value", f"{ls!r}: {key!r} is "
                                    f"listed with {v}")
            got = [k for k, _ in got]
        if len(set(got)) != len(got):
            raise Violation("duplicate", f"{ls!r}")
        for key in got:
            if key not in known:
                raise Violation("invented", f"{ls!r} reports {key!r}, which "
                                f"nobody added")
            if absent(key, ls, adds, rems):
                raise Violation("ghost", f"{ls!r} reports {key!r}, absent all "
                                f"the while")
        for key in known:
            if key not in got and must(key, ls, adds, rems):
                raise Violation("missing", f"{ls!r} lacks {key!r}, "
                                f"present all the while")


def must(key, ls, adds, rems):
    """key was certainly present from the start to the end of ls"""
    mine = [r for r in rems if r.args[0] == key]
    return any(
        a.args[0] == key and a.ok and a.ret < ls.inv and all(
            (r.ret is not None and r.ret < a.inv) or r.inv > ls.ret
            for r in mine) for a in adds)


def absent(key, ls, adds, rems):
    mine = [r for r in rems if r.args[0] == key and r.ok]
    for a in adds:
        if a.args[0] != key or a.inv > ls.ret:
            continue
        if not any(a.ret is not None and r.inv > a.ret and r.ret < ls.inv
                   for r in mine):
            return False
    return True
