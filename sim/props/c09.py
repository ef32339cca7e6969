"""C09 arrays on grid paper."""
from sim.arrays import array_equal, build_array, gen_array, same_bytes
from sim.base import (SimRun, Violation, gen_sched, lack, given, lacking, names,
                      short, slow)
from sim.props.c05 import Log, judge_updates

ID = "C09"
RULE = ("each run: 1-3 processes store, overwrite, delete and read arrays of "
        "assorted dtypes, shapes and layouts on one grid paper (one or "
        "several writers per name); every read that overlaps no change of "
        "its own name must give exactly the last array stored, and no read another name's array")
REAL = ["dustgoggles.codex.implements.GridPaper, MetaTagIndex, SlidingLock",
        "dustgoggles.codex.codecs.numpy_mnemonic_factory, memutilz",
        "multiprocessing.shared_memory (stdlib)", "numpy"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["processes share one resource tracker",
               "numpy's own copy into or out of a block is one step",
               "plain arrays (no subclasses)"]
QUICK, THOROUGH = 7000, 250000


def gen(rng, i, tier):
    nproc = rng.choice((1, 1, 2, 2, 3))
    keys = names(rng, rng.choice((1, 2, 3, 5)), prefix="grid")
    big = i % 300 == 99     # a long life, or very many keys
    if big:
        nproc = rng.choice((1, 1, 2))
        if rng.random() < 0.5:
            keys += [f"n{j}" for j in range(rng.choice((129, 257, 280)))]
    fill = [f"fill{n}" for n in range(rng.choice((0, 0, 1, 3)))]
    n = 0
    setup = []
    for k in keys + fill:
        if k in fill or rng.random() < 0.5:
            n += 1
            setup.append(dict(op="set", key=k, val=gen_array(rng, n)))
    rng.shuffle(setup)
    allkeys = keys + fill
    procs = []
    nops = rng.choice((2, 4, 6)) if nproc > 1 else rng.choice((4, 10, 30))
    if big:
        nops = 500 // nproc
    shared = nproc > 1 and rng.random() < 0.4
    for m in range(nproc):
        mine = [k for j, k in enumerate(allkeys) if shared or j % nproc == m]
        ops = []
        for _ in range(nops if big else rng.randint(1, nops)):
            r = rng.random()
            if r < 0.5 and mine:
                k = rng.choice(mine)
                if r < 0.18:
                    ops.append(dict(op="del", key=k))
                else:
                    n += 1
                    ops.append(dict(op="set", key=k, val=gen_array(rng, n),
                                    how=rng.choice(("set", "set", "item",
                                                    "keep", "excl"))))
            elif r < (0.99 if big else 0.93):
                ops.append(dict(op="get", key=rng.choice(allkeys),
                                how=rng.choice(("item", "copy", "view", "raw",
                                                "item", "block"))))
            else:
                ops.append(dict(op="iter", key="*"))
        faults = []
        if rng.random() < 0.1:
            faults.append(slow(rng, 80, (10, 40, 150)))
        scarce = not faults and rng.random() < 0.08
        if scarce:
            ops = [op for op in ops if op["op"] in ("get", "iter")]
            faults = [lack(rng)]
        procs.append(dict(ops=ops, faults=faults, lack=scarce,
                          thread=not scarce and nproc > 1 and rng.random() < 0.2))
    cfg = dict(no_lockout=nproc == 1 and rng.random() < 0.2,
               tear_seed=rng.randrange(1 << 30),
               tear_p=rng.choice((0, 0, 0.4)))
    return dict(cfg=cfg, setup=setup, procs=procs,
                max_steps=2000000 if big else 20000,
                sched=gen_sched(rng, 250 * nproc))


def open_paper(cfg, create):
    from dustgoggles.codex.implements import GridPaper
    return GridPaper("grid", create=create, no_lockout=cfg["no_lockout"])


def read(paper, key, how):
    import numpy as np
    if how == "item":
        return paper[key]
    if how == "copy":
        return paper.get(key, copy=True)
    if how == "view":
        got = paper.get(key)
        return None if got is None else np.array(got)
    if how == "block":
        block = paper.get(key, fetch=False)
        return None if block is None else block.buf.tobytes()
    return paper.get_raw(key)


def iterate(paper):
    return [(k, a.copy()) for k, a in paper.iteritems()]


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    with SimRun(plan, chooser) as run:
        def act(paper, op):
            if op["op"] == "set":
                a = build_array(op["val"])
                before = a.copy()
                how = op.get("how", "set")

                def go():
                    if how == "item":
                        paper[given(op["key"])] = a
                    elif how == "keep":
                        paper.__setitem__(given(op["key"]), a, keep_open=True)
                    elif how == "excl":
                        paper.set(given(op["key"]), a, exists_ok=False)
                    else:
                        paper.set(given(op["key"]), a)
                run.h.do("set", (op["key"], op["val"], how), go)
                if not array_equal(a, before):
                    run.fail("input-changed", f"storing {op} changed the "
                             f"array passed in")
            elif op["op"] == "del":
                run.h.do("del", (op["key"],),
                         lambda: paper.__delitem__(given(op["key"])))
            elif op["op"] == "get":
                run.h.do("get", (op["key"], op["how"]),
                         lambda: read(paper, given(op["key"]), op["how"]))
            else:
                run.h.do("iter", ("*",), lambda: iterate(paper))

        def prepare(p):
            paper = open_paper(cfg, True)
            for op in plan["setup"]:
                act(paper, op)
        run.solo(prepare, "filling")
        shared = [None, None]

        def body(spec, paper):
            def fn(p):
                with lacking(p, spec):
                    mine = paper if paper is not None else \
                        open_paper(cfg, False)
                for op in spec["ops"]:
                    act(mine, op)
            return fn

        for spec in plan["procs"]:
            if spec["thread"]:
                if shared[0] is None:
                    shared[0] = open_paper(cfg, False)
                p = run.k.spawn(body(spec, shared[0]), faults=spec["faults"],
                                space=shared[1])
                shared[1] = p.space
            else:
                run.k.spawn(body(spec, None), faults=spec["faults"])
        run.go()
        run.require_end("grid paper operations")

        def final(p):
            paper = open_paper(cfg, False)
            for k in sorted({str(o.args[0]) for o in run.h.ops
                             if o.kind in ("set", "del", "get")}):
                act(paper, dict(op="get", key=k, how="item"))
                act(paper, dict(op="get", key=k, how="copy"))
            act(paper, dict(op="iter"))
            return list(paper.keys()), list(paper.index.keys())
        rest = run.k.stamp()
        keys = run.solo(final, "reading at rest")
        judge(run, keys, rest)
    return run.out


def judge(run, keys, rest):
    ops = run.h.ops
    ups = {}
    for o in ops:
        if o.kind in ("set", "del"):
            if not o.ok and not (
                    o.exc == "KeyError" and (
                        o.kind == "del" or o.args[2] == "excl")):
                raise Violation(f"{o.kind}-error", f"{o!r}")
            if o.ok:
                ups.setdefault(str(o.args[0]), []).append(o)
    logs = {k: Log(v) for k, v in ups.items()}
    empty = Log([])
    arrays = {k: [(s, build_array(s.args[1])) for s in log.sets]
              for k, log in logs.items()}

    def look(key, got, inv, ret, what, raw=False):
        log = logs.get(key, empty)
        if log.overlapped(inv, ret):
            for other, known in arrays.items():
                if other != key and not raw and any(
                        array_equal(got, a) and a.size > 1
                        and a.dtype.kind not in "b" for _, a in known):
                    raise Violation("other-array", f"{what} gave the array "
                                    f"stored under {other!r}")
            return
        want = [a for s, a in arrays.get(key, ()) if s in log.values(inv, ret)]
        if raw:
            # the block may be larger than the array it holds
            good = any(same_bytes(got[:a.nbytes], a) for a in want)
        else:
            good = any(array_equal(got, a) for a in want)
        if not good:
            raise Violation("wrong-array", f"{what} gave {short(got, 60)} "
                            f"({getattr(got, 'dtype', None)}, "
                            f"{getattr(got, 'shape', None)}); stored: "
                            f"{log.values(inv, ret)}")

    for o in ops:
        if o.hit and o.exc == "OSError":
            continue
        if o.kind == "get":
            key, how = str(o.args[0]), o.args[1]
            log = logs.get(key, empty)
            missing = o.ok and o.value is None or not o.ok and o.exc in (
                ("FileNotFoundError", "KeyError") if how == "raw"
                else ("KeyError",) if how == "item" else ())
            if o.ok and not missing:
                look(key, o.value, o.inv, o.ret, repr(o),
                     how in ("raw", "block"))
            elif log.overlapped(o.inv, o.ret):
                continue
            elif not missing:
                raise Violation("read-error", f"{o!r}")
            elif not log.may_be_missing(o.inv):
                raise Violation("lost", f"{o!r} although stored: {log.ups}")
        if o.kind == "iter":
            busy = any(log.overlapped(o.inv, o.ret) for log in logs.values())
            if not o.ok:
                if not busy:
                    raise Violation("iter-error", f"{o!r}")
                continue
            for k, a in o.value:
                if k not in logs:
                    raise Violation("ghost", f"{o!r}")
                look(k, a, o.inv, o.ret, f"iteration for {k!r}")
            if not busy:
                got = {k for k, _ in o.value}
                must = {k for k, log in logs.items()
                        if not log.may_be_missing(o.inv)}
                may = {k for k, log in logs.items()
                       if log.values(o.inv, o.ret)}
                if not must <= got <= may:
                    raise Violation("iter-keys", f"{o!r}; stored {must}")
    finals = {}
    for o in ops:
        if o.kind == "get" and o.args[1] == "item" and o.inv > rest:
            finals[str(o.args[0])] = o
    judge_updates(run, finals,
                  lambda s, v: array_equal(build_array(s.args[1]), v))
    want = sorted(k for k, o in finals.items() if o.ok)
    for got in keys:
        if sorted(got) != want:
            raise Violation("listing", f"at rest lists {sorted(got)}, stored "
                            f"{want}")
