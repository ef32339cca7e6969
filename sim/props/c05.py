"""C05 what readers of a notepad see."""
import json
import pickle

from sim.base import (SimRun, Violation, build_value, gen_sched, gen_value,
                      given, lack, lacking, names, same, slow)
from sim.lin import linearizable

ID = "C05"
RULE = ("each run: 1-4 processes store, replace, delete, read and iterate "
        "keys of one notepad; every read is compared with the stores and "
        "deletions of its key that precede or overlap it")
REAL = ["dustgoggles.codex.implements.Notepad, TagIndex, MetaTagIndex, "
        "SlidingLock, FakeIndex", "dustgoggles.codex.codecs, memutilz",
        "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker",
               "a copy to or from a block happens in up to five parts, in "
               "any order; 8 bytes or fewer are copied at once",
               "a read that overlaps an update of its own key may fail",
               "a block handed out for a key (fetch=False) is not judged "
               "while its key is being updated"]
QUICK, THOROUGH = 24000, 600000
MISSING = "<missing>"


def gen_duel(rng):
    """one key, large values, many reads: half-written ones must not pass"""
    codec = rng.choice(("pickle",) * 6 + ("json", "ast"))
    key, n = names(rng, 1, prefix="np")[0], 1
    setup = [dict(op="set", key=key, val=["filler", 1, rng.randrange(99)])]
    writer = []
    for _ in range(rng.choice((2, 4, 6))):
        n += 1
        writer.append(dict(op="set", key=key, how=rng.choice(("set", "item")),
                           val=["filler", n, rng.randrange(99)]))
        if rng.random() < 0.2:
            writer.append(dict(op="del", key=key))
    procs = [dict(ops=writer, faults=[], thread=False)]
    for _ in range(rng.choice((1, 1, 2))):
        procs.append(dict(ops=[
            dict(op="get", key=key, how=rng.choice(("get", "item", "raw")))
            for _ in range(rng.choice((5, 10, 15)))], faults=[], thread=False))
    cfg = dict(codec=codec, index=rng.choice(("tag", "fake")), prefix="np",
               no_lockout=False, tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0.5, 0.9)))
    sched = gen_sched(rng, 200 * len(procs)) if rng.random() < 0.3 else dict(
        kind="burst", seed=rng.randrange(1 << 48), p=rng.choice((0.5, 0.8)))
    return dict(cfg=cfg, setup=setup, procs=procs, max_steps=20000,
                sched=sched)


def gen(rng, i, tier):
    if rng.random() < 0.2:
        return gen_duel(rng)
    nproc = rng.choice((1, 2, 2, 3, 3, 4))
    big = i % 300 == 99     # a long life, or very many keys
    if big:
        nproc = rng.choice((1, 1, 2))
    keys = names(rng, rng.choice((1, 2, 3, 4)), prefix="np")
    if big and rng.random() < 0.5:
        keys += [f"n{j}" for j in range(rng.choice((129, 257, 280)))]
    codec = rng.choice(("pickle", "pickle", "pickle", "json", "ast"))
    index = rng.choice(("tag", "tag", "tag", "meta", "fake"))
    style = {str(k): rng.choice(("owned", "owned", "shared", "frozen"))
             for k in keys}
    owner = {str(k): rng.randrange(nproc) for k in keys}
    n = 0
    setup = []
    for k in keys:
        if style[str(k)] == "frozen" or rng.random() < 0.5:
            n += 1
            setup.append(dict(op="set", key=k, val=value(rng, n, codec)))
    procs = []
    nops = rng.choice((2, 4, 6)) if nproc > 1 else rng.choice((5, 15, 40))
    if big:
        nops = 600 // nproc
    reader = rng.random() < 0.3
    for m in range(nproc):
        ops = []
        for _ in range(nops if big else rng.randint(1, nops)):
            k = rng.choice(keys)
            st = style[str(k)]
            r = rng.random()
            may_write = st == "shared" or st == "owned" and owner[str(k)] == m
            if may_write and r < 0.6:
                if r < 0.2 and (st == "owned" or index != "fake"):
                    ops.append(dict(op="del", key=k))
                else:
                    n += 1
                    ops.append(dict(op="set", key=k, val=value(rng, n, codec),
                                    how=rng.choice(("set", "item"))))
            elif r < (0.98 if big else 0.85) or index == "fake":
                ops.append(dict(op="get", key=k, how=rng.choice(
                    ("get", "get", "item", "default", "raw", "block"))))
            else:
                ops.append(dict(op="iter", key="*", how=rng.choice(
                    ("iteritems", "itervalues", "keys"))))
        if reader and m == 0 and nproc > 1:
            ops = [dict(op="get", key=rng.choice(keys), how="get")
                   for _ in ops] if index == "fake" else \
                [dict(op="iter", key="*", how="iteritems") for _ in ops[:2]]
        faults = []
        if rng.random() < 0.1:
            faults.append(slow(rng, 80, (10, 40, 150)))
        scarce = not faults and rng.random() < 0.08
        if scarce:
            ops = [op for op in ops if op["op"] in ("get", "iter")]
            faults = [lack(rng)]
        procs.append(dict(ops=ops, faults=faults, lack=scarce,
                          thread=not scarce and nproc > 1 and rng.random() < 0.2))
    cfg = dict(codec=codec, index=index, prefix=rng.choice(("np", "n_p", 7)),
               no_lockout=nproc == 1 and rng.random() < 0.3,
               tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0, 0.3, 0.9)))
    return dict(cfg=cfg, setup=setup, procs=procs,
                max_steps=2000000 if big else 20000,
                sched=gen_sched(rng, 200 * nproc))


def value(rng, n, codec):
    if codec == "pickle":
        return gen_value(rng, n)
    shapes = dict(json=("jint", "jstr", "jdict", "none"),
                  ast=("jint", "alist", "none", "jstr"))[codec]
    return [rng.choice(shapes), n, rng.randrange(1 << 16)]


def build(desc):
    shape, tag, r = desc
    if shape == "filler":
        # most of its bytes could be zeros and still be decoded
        size = 60 + 2 * r
        return (int(str(1 + tag % 9) * size) if r % 8 == 0 else
                chr(97 + tag % 26) * size)
    if shape == "jint":
        return tag * 100003 + r
    if shape == "jstr":
        return f"{tag}:" + "s" * (r % 80)
    if shape == "jdict":
        return {"tag": tag, "l": [1.5, None, True, "x" * (r % 30)]}
    if shape == "alist":
        return {"t": (tag, None, b"\x00\xff"), 3: [r] * (r % 20)}
    return build_value(desc)


def codec_of(name):
    from dustgoggles.codex import codecs
    return dict(pickle=codecs.pickle_codec_factory,
                json=codecs.json_codec_factory,
                ast=codecs.ast_codec_factory)[name]


def open_pad(cfg, create):
    from dustgoggles.codex import implements as im
    index = dict(tag=im.TagIndex, meta=im.MetaTagIndex,
                 fake=im.FakeIndex)[cfg["index"]]
    kw = {}
    if cfg["index"] != "fake":
        kw["no_lockout"] = cfg["no_lockout"]
    if cfg["codec"] != "pickle":
        kw["codec_factory"] = codec_of(cfg["codec"])
    return im.Notepad(cfg["prefix"], create=create, index_type=index, **kw)


def decode(cfg, blob):
    return codec_of(cfg["codec"])()[1](blob)


def read(pad, cfg, op):
    key, how = given(op["key"]), op["how"]
    if how == "get":
        return pad.get(key, MISSING)
    if how == "default":
        return pad.get(key)
    if how == "item":
        return pad[key]
    if how == "raw":
        return decode(cfg, pad.get_raw(key))
    block = pad.get(key, MISSING, fetch=False)
    if isinstance(block, str):
        return block
    return decode(cfg, block.buf.tobytes())


def iterate(run, pad, how, got):
    """one iteration, each step timestamped"""
    it = iter(getattr(pad, how)())
    while True:
        t = run.k.stamp()
        try:
            x = next(it)
        except StopIteration:
            return
        got.append((t, run.k.stamp(), x))


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    with SimRun(plan, chooser) as run:
        def act(p, pad, op):
            if op["op"] == "set":
                v = build(op["val"])
                fn = pad.set if op.get("how") != "item" else pad.__setitem__
                run.h.do("set", (op["key"], op["val"]),
                         lambda: fn(given(op["key"]), v))
            elif op["op"] == "del":
                run.h.do("del", (op["key"],),
                         lambda: pad.__delitem__(given(op["key"])))
            elif op["op"] == "get":
                run.h.do("get", (op["key"], op["how"]),
                         lambda: read(pad, cfg, op))
            else:
                got = []
                o = run.h.do("iter", ("*", op["how"], got),
                             lambda: iterate(run, pad, op["how"], got))

        def prepare(p):
            pad = open_pad(cfg, True)
            for op in plan["setup"]:
                act(p, pad, op)
        run.solo(prepare, "filling")
        shared = [None, None]

        def body(spec, pad):
            def fn(p):
                with lacking(p, spec):
                    mine = pad if pad is not None else open_pad(cfg, False)
                for op in spec["ops"]:
                    act(p, mine, op)
            return fn

        def open_again():
            # FakeIndex does not look for an existing index
            return open_pad(cfg, False)

        for spec in plan["procs"]:
            if spec["thread"]:
                if shared[0] is None:
                    shared[0] = open_again()
                p = run.k.spawn(body(spec, shared[0]), faults=spec["faults"],
                                space=shared[1])
                shared[1] = p.space
            else:
                run.k.spawn(body(spec, None), faults=spec["faults"])
        run.go()
        run.require_end("notepad operations")

        rest = []

        def final(p):
            pad = open_again()
            rest.append(run.k.stamp())
            for k in sorted({str(o.args[0]) for o in run.h.ops
                             if o.kind in ("set", "del", "get")}):
                act(p, pad, dict(op="get", key=k, how="get"))
            if cfg["index"] != "fake":
                act(p, pad, dict(op="iter", how="iteritems"))
                return list(pad.keys())
        keys = run.solo(final, "reading at rest")
        judge(run, cfg, keys)
        judge_updates(run, {str(o.args[0]): o for o in run.h.ops
                            if o.kind == "get" and o.inv > rest[0]})
    return run.out


class Log:
    """the updates of one key"""

    def __init__(self, updates):
        self.ups = updates          # ok or pending
        self.sets = [u for u in updates if u.kind == "set"]

    def overlapped(self, inv, ret):
        return any(u.inv < ret and (u.ret is None or u.ret > inv)
                   for u in self.ups)

    def superseded(self, s, inv):
        return any(u is not s and u.ret is not None and s.ret is not None
                   and u.inv > s.ret and u.ret < inv for u in self.ups)

    def values(self, inv, ret):
        return [s for s in self.sets
                if s.inv < ret and not self.superseded(s, inv)]

    def may_be_missing(self, inv):
        """some order of what ended before inv leaves the key absent"""
        done = [u for u in self.ups if u.ret is not None and u.ret < inv]
        if not any(u.kind == "set" for u in done):
            return True
        return any(u.kind == "del" and not any(
            s.kind == "set" and s.inv > u.ret for s in done) for u in done)


def check_value(log, v, inv, ret, what):
    for s in log.values(inv, ret):
        if same(build(s.args[1]), v):
            return
    stale = [s for s in log.sets if same(build(s.args[1]), v)]
    raise Violation("stale-value" if stale else "wrong-value",
                    f"{what} gave {str(v)[:80]!r}; stores that could explain "
                    f"it: {log.values(inv, ret)}")


def judge(run, cfg, keys):
    ops = run.h.ops
    ups = {}
    for o in ops:
        if o.kind in ("set", "del"):
            if o.kind == "set" and not o.ok:
                raise Violation("set-error", f"{o!r}")
            if o.kind == "del" and not o.ok:
                if o.exc != "KeyError":
                    raise Violation("del-error", f"{o!r}")
                continue
            ups.setdefault(str(o.args[0]), []).append(o)
    logs = {k: Log(v) for k, v in ups.items()}
    empty = Log([])
    for o in ops:
        if o.hit and o.exc == "OSError":
            continue
        if o.kind == "get":
            judge_get(o, logs.get(str(o.args[0]), empty))
        if o.kind == "iter":
            judge_iter(o, logs, o.args[2])
    if keys is not None:
        if len(set(keys)) != len(keys):
            raise Violation("duplicate", f"keys() at rest: {keys}")
        end = run.k.stamp()
        for k, log in logs.items():
            if not (log.values(end, end + 1) if k in keys
                    else log.may_be_missing(end)):
                raise Violation("listing", f"at rest {k!r} is "
                                f"{'listed' if k in keys else 'not listed'}; "
                                f"updates {log.ups}")
        if set(keys) - set(logs):
            raise Violation("ghost", f"keys() at rest: {keys}")


class Rest:
    """the state of a key once all is done, as an operation"""

    def __init__(self, state, now):
        self.state, self.inv, self.ret = state, now, now + 1
        self.kind = "rest"


def judge_updates(run, finals, agree=lambda o, v: same(build(o.args[1]), v)):
    """one order of a key's updates explains their outcomes and the end"""
    for key, f in finals.items():
        ops = [o for o in run.h.ops if o.kind in ("set", "del")
               and str(o.args[0]) == key]
        if f.ok and not (isinstance(f.value, str) and f.value == MISSING):
            states = [n for n, o in enumerate(ops)
                      if o.kind == "set" and agree(o, f.value)]
        else:
            states = [None]

        def step(state, o):
            if o.kind == "rest":
                return [state] if state in o.state else []
            if o.kind == "set" and o.ok:
                return [ops.index(o)] if state is None or \
                    "excl" not in o.args else []
            if o.kind == "set":
                return [state] if state is not None else []
            if o.ok:
                return [None] if state is not None else []
            return [None] if state is None else []
        if len(ops) < 40 and not linearizable(
                ops + [Rest(states, f.inv)], None, step):
            raise Violation("not-linearizable", f"{key!r} ends as {f!r} "
                            f"after {ops}")


def judge_get(o, log):
    how = o.args[1]
    busy = log.overlapped(o.inv, o.ret)
    missing = not o.ok and o.exc in ("KeyError", "FileNotFoundError") \
        if how in ("item", "raw") else o.ok and (
            isinstance(o.value, str) and o.value == MISSING)
    if how == "item" and missing and o.exc != "KeyError":
        raise Violation("missing-key-error", f"{o!r} should be a KeyError")
    if o.ok and not missing:
        if how == "block" and busy:
            return
        if how == "default" and o.value is None and (
                busy or log.may_be_missing(o.inv)):
            return
        check_value(log, o.value, o.inv, o.ret, repr(o))
        return
    if busy:
        return
    if not missing:
        raise Violation("read-error", f"{o!r} although nobody was changing "
                        f"the key; updates {log.ups}")
    if not log.may_be_missing(o.inv):
        raise Violation("lost", f"{o!r} although the key was stored: "
                        f"{log.ups}")


def judge_iter(o, logs, got):
    how = o.args[1]
    replaced = False
    for log in logs.values():
        for u in log.ups:
            if u.inv < o.ret and (u.ret is None or u.ret > o.inv):
                # first stores of new keys must not disturb anybody
                if u.kind == "del" or any(s.inv < u.inv or s is not u and
                                          s.inv < o.ret for s in log.sets
                                          if s is not u):
                    replaced = True
    if not o.ok and not replaced:
        raise Violation("iter-error", f"{o!r}, but no key was being replaced "
                        f"or removed")
    for inv, ret, x in got:
        if how == "iteritems":
            k, v = x
            if k not in logs:
                raise Violation("ghost", f"{o!r} gave {k!r}")
            check_value(logs[k], v, inv, ret, f"{o!r} for {k!r}")
        elif how == "itervalues":
            if not any(same(build(s.args[1]), x) for log in logs.values()
                       for s in log.values(inv, ret)):
                raise Violation("wrong-value", f"{o!r} gave {x!r}")
