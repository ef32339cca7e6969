"""C02 progress of the shared lock; leaving and giving up strand nobody."""
from sim.base import SimRun, Violation, gen_sched, slow

ID = "C02"
RULE = ("each run: 2-5 processes take one named lock repeatedly; some leave "
        "the section by an exception, some give up (spin limit, keyboard "
        "interrupt while waiting) or meet failing system calls; afterwards "
        "everybody must have finished, the lock must be free and the shared "
        "namespace must look as it does after one undisturbed use")
REAL = ["dustgoggles.codex.implements.SlidingLock",
        "dustgoggles.codex.memutilz", "multiprocessing.shared_memory (stdlib)"]
STUB = ["_posixshmem, mmap, fstat/ftruncate/close (in-memory namespace)",
        "resource tracker client", "processes (scheduled threads)", "clock"]
ASSUMPTIONS = ["fair scheduling once the step budget is spent",
               "interrupts arrive while a process waits, not inside the "
               "standard library's own block construction",
               "contenders share one resource tracker"]
QUICK, THOROUGH = 12000, 400000


def gen(rng, i, tier):
    nproc = rng.choice((2, 2, 3, 3, 4, 5))
    rounds = rng.choice((1, 1, 2, 3, 5))
    mode = rng.choice(("plain", "plain", "giveup", "errno", "mixed"))
    procs = []
    for _ in range(nproc):
        ops = []
        for _ in range(rng.randint(1, rounds)):
            ops.append(dict(
                op="with", hold=rng.choice((0, 1, 2, 4, 8)),
                fresh=rng.random() < 0.6, gap=rng.choice((0, 0, 1, 4)),
                nap=rng.choice((0, 0, 0, 0, 0, 0, 0.001, 0.2, 45)),
                exc=rng.choice((None, None, None, "Boom", "KeyboardInterrupt",
                                "SystemExit")),
                spins=rng.choice((0, 1, 2, 5, 20))
                if mode in ("giveup", "mixed") and rng.random() < 0.5 else None,
                delay=rng.choice((0, 0, 0, 0.01))))
        faults = []
        if mode in ("giveup", "mixed") and rng.random() < 0.5:
            faults.append(dict(kind="interrupt", call="sleep",
                               nth=rng.randint(1, 5)))
        if mode in ("errno", "mixed") and rng.random() < 0.5:
            call = rng.choice(("create", "open", "trunc"))
            faults.append(dict(
                kind="errno", call=call, nth=rng.randint(1, 8),
                times=rng.choice((1, 1, 1, 2, 4)),
                errno="ENOSPC" if call == "trunc" else rng.choice(
                    ("EMFILE", "ENFILE", "ENOMEM"))))
        if rng.random() < 0.15:
            faults.append(slow(rng, 50, (20, 100, 400)))
        procs.append(dict(ops=ops, faults=faults))
    cfg = dict(name=rng.choice(("lk", "a_index")),
               warm=rng.choice((0, 1, 1, 2, 254, 300))
               if rng.random() < 0.4 else 0)
    naps = any(op["nap"] > 1 for p in procs for op in p["ops"])
    return dict(cfg=cfg, procs=procs, max_steps=60000 if naps else 6000,
                sched=gen_sched(rng, 60 * nproc))


class Boom(Exception):
    pass


EXC = dict(Boom=Boom, KeyboardInterrupt=KeyboardInterrupt,
           SystemExit=SystemExit)
BASE = {}


def baseline(name):
    """blocks that remain after one undisturbed use of a lock"""
    if name not in BASE:
        from dustgoggles.codex.implements import SlidingLock
        from sim.kernel import ListChooser
        with SimRun({"sched": None}, ListChooser([])) as run:
            with SlidingLock(name):
                pass
            BASE[name] = set(run.w.blocks())
        if run.out.violation:
            BASE.pop(name, None)
            raise Violation(*run.out.violation)
    return BASE[name]


def use(run, lock, op):
    lock.max_spins, lock.delay = op["spins"], op["delay"]
    calls = run.k.current.calls
    waits = calls.get("sleep", 0)
    try:
        with lock:
            run.k.probe("entered")
            for _ in range(op["hold"]):
                run.k.mark("in")
            if op["nap"]:
                run.k.sleep(op["nap"])
            if op["exc"]:
                raise EXC[op["exc"]]("from the body")
    except TimeoutError:
        waited = calls.get("sleep", 0) - waits
        if op["spins"] is not None and waited < op["spins"]:
            run.fail("gave-up-early", f"a waiter allowed to wait "
                     f"{op['spins']} times gave up after {waited}")
        raise
    except SystemExit as ex:
        raise Boom(str(ex))


def execute(plan, chooser=None):
    from dustgoggles.codex.implements import SlidingLock
    cfg = plan["cfg"]
    name = cfg["name"]
    with SimRun(plan, chooser) as run:
        base = run.aside(baseline, name)
        if cfg["warm"]:
            lk = SlidingLock(name)
            for _ in range(cfg["warm"]):
                with lk:
                    pass

        def body(spec):
            def fn(p):
                lock = None
                for op in spec["ops"]:
                    if lock is None or op["fresh"]:
                        lock = run.h.do("lock", (),
                                        lambda: SlidingLock(name)).value
                    if lock is not None:
                        run.h.do("with", (op["exc"], op["spins"]),
                                 lambda: use(run, lock, op))
                    for _ in range(op["gap"]):
                        run.k.mark("gap")
            return fn

        for spec in plan["procs"]:
            run.k.spawn(body(spec), faults=spec["faults"])
        run.go()
        run.require_end("entries to the lock")
        for op in run.h.ops:
            spec = plan["procs"][op.pid - 1]
            kinds = {f["kind"] for f in spec["faults"]}
            if op.kind == "with" and op.args[0] and op.ok:
                raise Violation("exception-lost", f"the exception raised in "
                                f"the section never left it: {op!r}")
            if op.ok:
                continue
            if op.msg == "from the body":
                continue
            if op.exc == "TimeoutError" and op.args and op.args[1] is not None:
                run.k.probe("timed out")
                continue
            if op.exc == "KeyboardInterrupt" and "interrupt" in kinds:
                continue
            if op.exc == "OSError" and "errno" in kinds:
                continue
            raise Violation("lock-error", f"{op!r}")
        left = set(run.w.blocks())
        if not left <= base:
            raise Violation("left-behind", f"after everybody left, "
                            f"{sorted(left - base)} remain in shared memory")

        def last(p):
            def go():
                with SlidingLock(name):
                    return True
            return run.h.do("final", (), go)

        op = run.solo(last, "entering the free lock")
        if not op.ok:
            raise Violation("unusable", f"the free lock cannot be entered: "
                            f"{op!r}")
        left = set(run.w.blocks())
        if not left <= base:
            raise Violation("left-behind", f"{sorted(left - base)} remain")
    return run.out
