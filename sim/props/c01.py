"""C01 mutual exclusion of the shared lock."""
from sim.base import SimRun, gen_sched, slow
from sim.kernel import HarnessError

ID = "C01"
RULE = ("each run: 2-5 simulated processes take one named lock 1-4 times each "
        "under a seeded schedule of every shared-memory call; occupancy of "
        "the guarded section is asserted at every entry; kills anywhere, "
        "some waiters time out or are interrupted")
REAL = ["dustgoggles.codex.implements.SlidingLock",
        "dustgoggles.codex.memutilz", "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["sequentially consistent shared memory, atomic at the "
               "granularity of one system call or one block access",
               "contenders share one resource tracker, as children of one "
               "parent do"]
QUICK, THOROUGH = 12000, 400000


def gen_body(rng):
    return dict(op="with", hold=rng.choice((0, 1, 1, 2, 3, 6)),
                fresh=rng.random() < 0.6,
                nap=rng.choice((0, 0, 0, 0.001)),
                exc=rng.random() < 0.12,
                spins=None,
                gap=rng.choice((0, 0, 1, 3)))


def gen(rng, i, tier):
    nproc = rng.choice((2, 2, 2, 3, 3, 4, 5))
    rounds = rng.choice((1, 1, 2, 2, 3, 4))
    procs = []
    kills = rng.random() < 0.3
    quits = rng.random() < 0.35
    for _ in range(nproc):
        ops = [gen_body(rng) for _ in range(rng.randint(1, rounds))]
        faults = []
        if quits:
            for op in ops:
                if rng.random() < 0.6:
                    op["spins"] = rng.choice((0, 1, 2, 5))
            if rng.random() < 0.3:
                faults.append(dict(kind="interrupt", call="sleep",
                                   nth=rng.randint(1, 4)))
        if kills and rng.random() < 0.4:
            faults.append(dict(kind="kill", at=rng.randint(1, 60)))
        if rng.random() < 0.15:
            faults.append(slow(rng, 50, (20, 100, 400)))
        if rng.random() < 0.08:     # while it holds the lock
            faults.append(dict(kind="pause", call="mark", nth=rng.randint(
                1, 3), secs=rng.choice((20, 90))))
        procs.append(dict(ops=ops, faults=faults))
    cfg = dict(name=rng.choice(("lk", "a_index", "n_1")),
               warm=rng.choice((0, 0, 0, 1, 2, 5, 255, 256))
               if rng.random() < 0.5 else 0)
    return dict(cfg=cfg, procs=procs, sched=gen_sched(rng, 60 * nproc))


class Boom(Exception):
    pass


def take(run, pid, lock, op, inside):
    k = run.k
    if op["spins"] is not None:
        # give up after waiting that many times
        lock.max_spins, lock.spins = op["spins"], 0
    else:
        lock.max_spins = None
    with lock:
        try:
            inside.append(pid)
            if len(inside) > 1:
                run.fail("two-inside", f"processes {inside} are inside the "
                         f"section at once")
            k.probe("entered")
            for _ in range(op["hold"]):
                k.mark("in")
                if len(inside) > 1:
                    run.fail("two-inside", f"processes {inside} are inside "
                             f"the section at once")
            if op["nap"]:
                k.sleep(op["nap"])
            if op["exc"]:
                raise Boom
        finally:
            inside.remove(pid)


def execute(plan, chooser=None):
    from dustgoggles.codex.implements import SlidingLock
    cfg = plan["cfg"]
    with SimRun(plan, chooser) as run:
        name = cfg["name"]
        if cfg["warm"]:
            lk = SlidingLock(name)
            for _ in range(cfg["warm"]):
                with lk:
                    pass
        inside = []

        def body(spec):
            def fn(p):
                lock = None
                for op in spec["ops"]:
                    if lock is None or op["fresh"]:
                        lock = run.h.do("lock", (),
                                        lambda: SlidingLock(name)).value
                    if lock is None:
                        continue
                    run.h.do("with", (op["hold"],),
                             lambda: take(run, p.pid, lock, op, inside))
                    for _ in range(op["gap"]):
                        run.k.mark("gap")
            return fn

        for spec in plan["procs"]:
            run.k.spawn(body(spec), faults=spec["faults"])
        run.go()
    return run.out
