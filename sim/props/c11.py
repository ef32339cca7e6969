"""C11 turning the resource tracker off."""
from sim.base import (SimRun, Violation, build_value, gen_sched, gen_value,
                      same)

ID = "C11"
RULE = ("each run: 2-5 processes of one or several families (each family has "
        "its own resource tracker) turn shared-memory tracking off, then "
        "create, open, read and delete blocks, notepad entries, arrays and "
        "notes, make and release semaphores, and exit or are killed in a "
        "seeded order; after every exit the blocks and semaphores that exist "
        "are compared with those that should")
REAL = ["dustgoggles.codex.memutilz.deactivate_shared_memory_resource_tracker,"
        " open_block, delete_block, fetch_block_bytes",
        "dustgoggles.codex.implements.Notepad, GridPaper, Sticky, TagIndex",
        "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "the resource tracker process of each family (registers, "
        "unregisters, unlinks what is left when its last client ends)",
        "named semaphores", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["every process turns tracking off before it first touches "
               "shared memory", "one process changes a given block"]
QUICK, THOROUGH = 12000, 300000


def gen(rng, i, tier):
    nproc = rng.choice((2, 2, 3, 3, 4, 5))
    nfam = rng.choice((1, 2, nproc, nproc))
    kinds = {}
    procs, n = [], 0
    big = i % 300 == 99         # very many things tracked
    for m in range(nproc):
        ops, mine = [], []
        for _ in range(90 if big and m < 2 else rng.choice((1, 3, 6, 9))):
            r = rng.random()
            n += 1
            if r < 0.35:
                kind = rng.choice(("block", "pad", "grid", "note"))
                name = f"{kind}{m}x{rng.randrange(30 if big else 2)}"
                kinds[name] = kind
                mine.append(name)
                v = gen_value(rng, n)
                if v[0] == "none":
                    v[0] = "small"
                ops.append(dict(op="put", name=name, kind=kind, val=v))
            elif r < 0.45 and mine:
                name = rng.choice(mine)
                ops.append(dict(op="del", name=name, kind=kinds[name]))
            elif r < 0.65:
                kind = rng.choice(("block", "pad", "grid", "note"))
                ops.append(dict(
                    op="get", kind=kind,
                    name=f"{kind}{rng.randrange(nproc)}x{rng.randrange(2)}"))
            elif r < 0.85:
                ops.append(dict(op="sem", name=f"sem{m}x{rng.randrange(40 if big else 3)}",
                                on=rng.random() < 0.6))
            elif r < (0.86 if big else 0.92):
                ops.append(dict(op="off"))
            else:
                ops.append(dict(op="nap", t=rng.choice((0.01, 1))))
        faults = []
        if rng.random() < 0.25:
            faults.append(dict(kind="kill", at=rng.randint(1, 60)))
        if rng.random() < 0.2:
            faults.append(dict(kind="stall", at=rng.randint(1, 40),
                               **{"for": rng.choice((20, 100))}))
        procs.append(dict(ops=ops, faults=faults, fam=1 + m % nfam,
                          join=rng.random() < 0.3))
    return dict(cfg={}, procs=procs,
                max_steps=600000 if big else 6000, sched=gen_sched(rng, 150 * nproc))


def put(kind, name, desc):
    from dustgoggles.codex import implements as im, memutilz as mu
    if kind == "block":
        blob = repr(desc).encode()
        block = mu.open_block(name, len(blob), overwrite=True)
        block.buf[:] = blob
        block.close()
    elif kind == "pad":
        try:
            pad = im.Notepad(name, create=True)
        except FileExistsError:
            pad = im.Notepad(name)
        pad["k"] = build_value(desc)
    elif kind == "grid":
        import numpy as np
        try:
            pad = im.GridPaper(name, create=True)
        except FileExistsError:
            pad = im.GridPaper(name)
        pad["k"] = np.arange(1 + desc[2] % 50) + desc[1]
    else:
        im.Sticky.note(build_value(desc), name)


def get(kind, name):
    from dustgoggles.codex import implements as im, memutilz as mu
    if kind == "block":
        return mu.fetch_block_bytes(name)
    if kind == "pad":
        return im.Notepad(name)["k"]
    if kind == "grid":
        return im.GridPaper(name)["k"]
    got = im.Sticky(name).read()
    if got is None:
        raise FileNotFoundError(name)
    return got


def remove(kind, name):
    from dustgoggles.codex import implements as im, memutilz as mu
    if kind == "block":
        mu.delete_block(name)
    elif kind == "pad":
        im.Notepad(name).close()
    elif kind == "grid":
        im.GridPaper(name).close()
    else:
        im.Sticky(name).pull()


def matches(kind, desc, got):
    if kind == "block":
        return got == repr(desc).encode()
    if kind == "grid":
        import numpy as np
        want = np.arange(1 + desc[2] % 50) + desc[1]
        return got.shape == want.shape and bool((got == want).all())
    return same(got, build_value(desc))


def execute(plan, chooser=None):
    from dustgoggles.codex.memutilz import \
        deactivate_shared_memory_resource_tracker as off
    with SimRun(plan, chooser) as run:
        k, w = run.k, run.w
        # name -> [kind, value] while it must exist; absent: may or may not
        there = {}
        sems = {}                    # name -> family, while registered

        def tracker():
            import multiprocessing.resource_tracker as rt
            return rt

        def act(p, op):
            name = op.get("name")
            if op["op"] == "put":
                there.pop(name, None)
                o = run.h.do("put", (name, op["val"]), lambda: put(
                    op["kind"], name, op["val"]))
                if o.ok:
                    there[name] = [op["kind"], op["val"]]
                else:
                    run.fail("put-error", f"{o!r}")
            elif op["op"] == "del":
                had = there.pop(name, None)
                o = run.h.do("del", (name,),
                             lambda: remove(op["kind"], name))
                if not o.ok and had is not None:
                    run.fail("del-error", f"{o!r}")
            elif op["op"] == "get":
                had = there.get(name)
                o = run.h.do("get", (name,), lambda: get(op["kind"], name))
                if had is not None and there.get(name) is had:
                    check(o, had)
            elif op["op"] == "sem":
                sem(p, op, name)
            elif op["op"] == "off":
                o = run.h.do("off", (), off)
                if not o.ok:
                    run.fail("off-error", f"{o!r}")
            elif op["op"] == "nap":
                k.sleep(op["t"])

        def check(o, had):
            if not o.ok:
                run.fail("lost", f"{o!r}, but it was stored ({had}) and "
                         f"nobody removed it")
            elif not matches(*had, o.value):
                run.fail("wrong-value", f"{o!r} instead of {had}")

        def sem(p, op, name):
            rt = tracker()
            if op["on"] and name not in sems:
                k.mark("sem")
                sems[name] = p.family
                w.sems.add(name)
                o = run.h.do("register", (name,),
                             lambda: rt.register(name, "semaphore"))
            elif not op["on"] and name in sems:
                k.mark("sem")
                w.sems.discard(name)
                o = run.h.do("unregister", (name,),
                             lambda: rt.unregister(name, "semaphore"))
                sems.pop(name)
            else:
                return
            if not o.ok:
                run.fail("semaphore-error", f"{o!r}")

        def body(spec):
            def fn(p):
                o = run.h.do("off", (), off)
                if not o.ok:
                    run.fail("off-error", f"{o!r}")
                    return
                for op in spec["ops"]:
                    if run.viol:
                        return
                    act(p, op)
            return fn

        def after_exit(p):
            if p.family == 0 or run.viol or k.teardown:
                return
            for name, had in there.items():
                if not w.blocks(name):
                    run.fail("destroyed", f"{name} ({had[0]}) vanished when "
                             f"process {p.pid} ended; nobody removed it")
            for x in w.tracker_log:
                if x[0] == "unknown unregister" and x[3] == "shared_memory":
                    continue
                if x[3] == "shared_memory" and x[0] == "leaked":
                    run.fail("tracked", f"the resource tracker still "
                             f"tracked block {x[2]}")
                if x[0] == "unknown unregister":
                    run.fail("semaphore-unknown", f"{x}")
                if x[3] == "semaphore" and x[0] == "leaked" \
                        and x[2] not in sems:
                    run.fail("semaphore-kept", f"{x[2]} was still tracked "
                             f"although it had been released")
            live = {q.family for q in k.procs if q.state != "done"}
            for name, fam in sems.items():
                if fam in live and name not in w.sems:
                    run.fail("semaphore-released-early", name)
                if fam not in live and name in w.sems:
                    run.fail("semaphore-leaked", f"{name} outlived its "
                             f"family")

        k.on_exit.append(after_exit)
        for spec in plan["procs"]:
            k.spawn(body(spec), family=spec["fam"], faults=spec["faults"])
        run.go()
        run.require_end("shared-memory operations")
        k.probe("exits", len(plan["procs"]))

        def final(p):
            off()
            for name, had in sorted(there.items()):
                o = run.h.do("get", (name,), lambda: get(had[0], name))
                check(o, had)
        run.solo(final, "reading at rest")
        if run.viol:
            raise Violation(*run.viol)
    return run.out
