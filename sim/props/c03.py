"""C03 updates of a shared index are linearizable."""
import json

from sim.base import SimRun, Violation, gen_sched, given, names, slow
from sim.lin import linearizable

ID = "C03"
RULE = ("each run: 1-4 processes (some of them several threads around one "
        "index object) add and remove keys on one TagIndex or MetaTagIndex; "
        "the outcomes per key and the listings taken by every process and a "
        "fresh one at the end must be explained by one order of the updates")
REAL = ["dustgoggles.codex.implements.TagIndex, MetaTagIndex, SlidingLock, "
        "FakeLock", "dustgoggles.codex.codecs.generic_mnemonic_factory",
        "dustgoggles.codex.memutilz", "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker", "keys are distinct as "
               "strings; metadata is JSON-stable",
               "no_lockout indexes are used by one process at a time"]
QUICK, THOROUGH = 9000, 300000


def gen(rng, i, tier):
    meta = rng.random() < 0.5
    long_ = rng.random() < 0.008
    nproc = rng.choice((1, 2, 2, 3, 3, 4)) if not long_ else rng.choice((1, 2))
    nkeys = rng.choice((1, 2, 3, 4, 6))
    keys = names(rng, nkeys, "free" if rng.random() < 0.08 else None)
    fill = rng.choice((0, 0, 1, 2, 3, 5)) if not long_ else \
        rng.choice((254, 255, 256, 300))
    if fill > 10:
        setup = [f"fill{n}" for n in range(fill)]
    else:
        setup = [k for k in keys if rng.random() < 0.4] + \
            [f"fill{n}" for n in range(fill)]
    rng.shuffle(setup)
    share = nproc > 1 and rng.random() < 0.3
    procs = []
    tag = [0]
    nops = rng.choice((1, 2, 3, 5, 8) if nproc < 4 else (1, 2, 3))
    pool = keys + (setup[-2:] if setup and rng.random() < 0.3 else [])
    seen = set()
    pool = [k for k in pool if not (str(k) in seen or seen.add(str(k)))]
    if nproc == 1:
        nops = rng.choice((5, 12, 40))
    for _ in range(nproc):
        ops = []
        for _ in range(rng.randint(1, nops)):
            tag[0] += 1
            r = rng.random()
            key = rng.choice(pool)
            if r < 0.55:
                ops.append(dict(op="add", key=key, exists_ok=rng.random() < .7,
                                val=gen_meta(rng, tag[0]) if meta and
                                rng.random() < 0.7 else None))
            elif r < 0.9:
                ops.append(dict(op="remove", key=key,
                                how=rng.choice(("remove", "del"))))
            else:
                ops.append(dict(op="look", key=key))
        faults = []
        if rng.random() < 0.1:
            faults.append(slow(rng, 80, (20, 100, 400)))
        procs.append(dict(ops=ops, faults=faults,
                          thread=share and rng.random() < 0.7))
    cfg = dict(meta=meta, name=rng.choice(("ix", "p_index", "n_1")),
               no_lockout=nproc == 1 and rng.random() < 0.3)
    return dict(cfg=cfg, setup=setup, procs=procs, max_steps=60000 if long_ else 12000,
                sched=gen_sched(rng, 150 * nproc))


def gen_meta(rng, tag):
    r = rng.random()
    if r < 0.3:
        return tag
    if r < 0.36:
        # in danger of passing for none
        return rng.choice((0, "", [], {}, False, 0.0))
    if r < 0.6:
        return {"t": tag, "shape": [tag, 2], "s": "x" * rng.randrange(40)}
    if r < 0.8:
        return f"meta-{tag}-\u00e9" + "y" * rng.randrange(30)
    return [tag, None, True, {"k": "v" * rng.randrange(60)}]


ABSENT = "absent"


def step(meta):
    def f(state, op):
        if op.kind == "add":
            key, exists_ok, val = op.args
            v = json.dumps(val) if val is not None else None
            if op.ret is None:
                yield state
            if state == ABSENT:
                if op.ret is None or op.ok:
                    yield v
            elif exists_ok:
                if op.ret is None or op.ok:
                    yield v if v is not None else state
            elif op.ret is not None and not op.ok \
                    and op.exc == "FileExistsError":
                yield state
        elif op.kind == "remove":
            if op.ret is None:
                yield state
            if state == ABSENT:
                if op.ret is not None and not op.ok and op.exc == "KeyError":
                    yield state
            elif op.ret is None or op.ok:
                yield ABSENT
        elif op.kind == "final":
            if op.value == state:
                yield state
    return f


class Final:
    kind = "final"
    ok = True

    def __init__(self, value, at):
        self.value, self.inv, self.ret = value, at, at + 1


def observe(ix, meta, keys):
    """everything a process can learn about the index at rest"""
    listing = list(ix.update())
    out = dict(listing=listing)
    out["check"] = {str(k): ix.check(k) is not None for k in keys}
    if meta:
        out["keys"] = list(ix.keys())
        out["items"] = list(ix.items())
        out["values"] = list(ix.values())
        got = {}
        for k, v in out["items"]:
            if v is not None:
                raw = ix[k]
                got[k] = json.loads(bytes(raw))
        out["get"] = got
    return out


def make(cfg, create):
    from dustgoggles.codex.implements import MetaTagIndex, TagIndex
    cls = MetaTagIndex if cfg["meta"] else TagIndex
    return cls(cfg["name"], create=create, no_lockout=cfg["no_lockout"])


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    meta = cfg["meta"]
    with SimRun(plan, chooser) as run:
        k = run.k
        init = {}

        def prepare(p):
            ix = make(cfg, True)
            for key in plan["setup"]:
                if meta:
                    ix.add(given(key), {"fill": str(key)})
                else:
                    ix.add(given(key))
                init[str(key)] = json.dumps({"fill": str(key)}) if meta \
                    else None
            return ix

        run.solo(prepare, "filling the index")
        shared_ix = None
        space = None
        live = []

        def body(spec, ix):
            def fn(p):
                ix_ = ix if ix is not None else make(cfg, False)
                live.append(ix_)
                for op in spec["ops"]:
                    if op["op"] == "add":
                        args = (op["key"], op["exists_ok"], op["val"])

                        def do():
                            if op["val"] is not None:
                                ix_.add(given(op["key"]), op["val"],
                                                exists_ok=op["exists_ok"])
                            else:
                                ix_.add(given(op["key"]),
                                                exists_ok=op["exists_ok"])
                    elif op["op"] == "look":
                        # what it sees is judged by C04; here it must only
                        # not disturb the updates
                        run.h.do("look", (op["key"],),
                                 lambda: len(list(ix_.update())))
                        continue
                    else:
                        args = (op["key"],)

                        def do():
                            if op["how"] == "del":
                                del ix_[given(op["key"])]
                            else:
                                ix_.remove(given(op["key"]))
                    run.h.do(op["op"], args, do)
            return fn

        for spec in plan["procs"]:
            if spec["thread"]:
                if shared_ix is None:
                    shared_ix = make(cfg, False)
                pr = k.spawn(body(spec, shared_ix), faults=spec["faults"],
                             space=space)
                space = pr.space
            else:
                k.spawn(body(spec, None), faults=spec["faults"])
        run.go()
        run.require_end("index updates")
        bykey = {}
        for op in run.h.ops:
            if op.kind == "look":
                continue
            bykey.setdefault(str(op.args[0]), []).append(op)
            if not op.ok and not (
                    op.exc == "FileExistsError" and op.kind == "add"
                    and not op.args[1] or
                    op.exc == "KeyError" and op.kind == "remove"):
                raise Violation("op-error", f"{op!r}")
        known = sorted(set(init) | set(bykey))
        views = [("a fresh process", lambda: make(cfg, False))]
        views += [(f"process {n}", lambda ix=ix: ix)
                  for n, ix in enumerate(live)]
        for who, get in views:
            got = run.solo(lambda p: observe(get(), meta, known),
                           "listing at rest")
            judge(got, who, meta, init, bykey, known, k.stamp())
    return run.out


def judge(got, who, meta, init, bykey, known, now):
    listing = got["listing"]
    if len(set(listing)) != len(listing):
        raise Violation("duplicate", f"{who} lists {listing}")
    ghosts = [x for x in listing if x not in known]
    if ghosts:
        raise Violation("ghost", f"{who} lists {ghosts}, never added")
    present = set(listing)
    wrong = [x for x, v in got["check"].items() if v != (x in present)]
    if wrong:
        raise Violation("check", f"{who} lists {listing} but check() "
                        f"disagrees about {wrong}")
    vals = {}
    if meta:
        if sorted(got["keys"]) != sorted(listing):
            raise Violation("keys", f"{who}: keys() gives {got['keys']}, "
                            f"update() {listing}")
        if sorted(x for x, _ in got["items"]) != sorted(listing):
            raise Violation("items", f"{who}: items() gives {got['items']}")
        vals = dict(got["items"])
        if sorted(map(repr, got["values"])) != sorted(
                map(repr, vals.values())):
            raise Violation("values", f"{who}: values() {got['values']} "
                            f"items() {got['items']}")
        for x, v in got["get"].items():
            if v != vals[x]:
                raise Violation("getitem", f"{who}: index[{x!r}] is {v}, "
                                f"items() says {vals[x]}")
    f = step(meta)
    for key in sorted(known):
        if key in present:
            v = vals.get(key)
            state = json.dumps(v) if v is not None else None
        else:
            state = ABSENT
        ops = bykey.get(key, [])
        first = init.get(key, ABSENT)
        if not linearizable(ops + [Final(state, now)], first, f):
            raise Violation(
                "not-linearizable", f"key {key!r} (initially "
                f"{first}) ends as {state} for {who} after {ops}")
