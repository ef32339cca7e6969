"""C17 pool mapping: no orphaned pool, truthful progress."""
import copy

from sim.base import SimRun, Violation, gen_sched, short
from sim.kernel import HarnessError, SimKill
from sim.poolrun import gen_jobs, job, key_of, many, records

ID = "C17"
RULE = ("each run: jobs are mapped into a pool of 1-5 simulated workers, "
        "either with map_into_pool while submitting fails, a record is "
        "malformed or an interrupt arrives at some call or wait, or step by "
        "step with up to two more threads watching the progress; the pool "
        "must be shut down at the end and every count true")
REAL = ["dustgoggles.structures.map_into_pool, MaybePool, MaybeResult",
        "pickling of jobs and outcomes as multiprocessing does it"]
STUB = ["multiprocessing.Pool (workers are simulated processes)",
        "process and thread scheduling"]
ASSUMPTIONS = ["jobs neither end nor interrupt their worker process",
               "interrupts arrive where the pool is used, not while it is "
               "being created or terminated",
               "the pool is watched between mapping and terminating"]
QUICK, THOROUGH = 25000, 800000
CALLS = ("pool.submit", "pool.wait", "pool.wait", "pool.wait", "pool.close",
         "pool.join", "pool.get")


def gen(rng, i, tier):
    threads = rng.choice((None, 1, 2, 2, 3, 4, 5))
    mode = rng.choice(("into", "watch"))
    jobs = gen_jobs(rng, threads, many(rng, i))
    if threads is not None and rng.random() < 0.1 and jobs:
        rng.choice(jobs)["do"] = rng.choice(("locked", "poison", "cracked"))
    faults, ops = [], []
    if mode == "into":
        if threads is None:
            threads = 2
        broken = None
        if rng.random() < 0.75:
            r = rng.random()
            call = rng.choice(CALLS)
            nth = rng.choice((1, 1, 2, 3, 4, 6, 9, 14))
            if r < 0.7:
                faults = [dict(kind="interrupt", call=call, nth=nth)]
            elif r < 0.85:
                faults = [dict(kind="errno", call="pool.submit", nth=nth)]
            elif jobs:
                broken = dict(at=rng.randrange(len(jobs)),
                              how=rng.choice(("type", "args", "kwargs")))
        ops = [dict(op="into", filter=rng.random() < 0.3)]
        cfg = dict(threads=threads, mode=mode, broken=broken, watchers=0)
    else:
        for _ in range(rng.choice((1, 3, 6, 12))):
            ops.append(dict(op=rng.choice(("poll", "poll", "poll", "marks",
                                           "get", "remap")),
                            n=rng.choice((1, 3, 10))))
        for op in ("close", "join", "poll", "get", "poll"):
            if rng.random() < 0.7 and not (op == "join" and
                                           ops[-1]["op"] != "close"):
                ops.append(dict(op=op, n=1))
        cfg = dict(threads=threads, mode=mode, broken=None,
                   watchers=rng.choice((0, 0, 1, 2)))
        if cfg["watchers"]:
            ops = [o for o in ops if o["op"] != "remap"]
    cfg["chunks"] = rng.choice((True, False))
    cfg["jobs"] = jobs
    return dict(cfg=cfg, procs=[dict(ops=ops, faults=faults)],
                max_steps=60000 if i % 250 != 99 else 1000000, sched=gen_sched(rng, 150))


def simpler(plan):
    cfg = plan["cfg"]
    for j in range(len(cfg["jobs"])):
        if cfg["broken"] is None:
            q = copy.deepcopy(plan)
            del q["cfg"]["jobs"][j]
            yield q
    for key in ("watchers", "threads"):
        if cfg[key] and cfg[key] > (key == "threads"):
            q = copy.deepcopy(plan)
            q["cfg"][key] -= 1
            yield q


def execute(plan, chooser=None):
    with SimRun(plan, chooser) as run:
        run.w.pool_ok = True
        run.w.pools = []
        run.w.jobs = dict(enumerate(plan["cfg"]["jobs"]))
        run.w.ran = []
        log = []
        fn = into if plan["cfg"]["mode"] == "into" else watched
        fn(run, plan, log)
        run.out.digest_extra = repr(log)
    return run.out


def into(run, plan, log):
    from dustgoggles.structures import map_into_pool
    cfg, k = plan["cfg"], run.k

    def body(p):
        recs = records(cfg["jobs"], 0)
        bad = cfg["broken"]
        if bad is not None and bad["at"] < len(recs):
            if bad["how"] == "type":
                recs[bad["at"]] = 7
            else:
                recs[bad["at"]][bad["how"]] = 7
        value, error = None, None
        try:
            value = map_into_pool(job, recs, cfg["threads"],
                                  plan["procs"][0]["ops"][0]["filter"],
                                  as_chunks=cfg["chunks"])
        except (SimKill, HarnessError):
            raise
        except (Exception, KeyboardInterrupt) as ex:
            error = ex
        log.append((short(value), type(error).__name__))
        hit = [f for f in ("interrupt", "submit_fails")
               if k.fault_counts.get(f)]
        what = (f"mapping {len(recs)} jobs, threads={cfg['threads']}, "
                f"as_chunks={cfg['chunks']}, hit by {hit}, bad record {bad},"
                f" {error!r}")
        for pool in run.w.pools:
            if not pool.shut_down():
                run.fail("orphan", f"{what}: the pool still runs (state "
                         f"{pool.state}, {pool.open_results} results open)")
        if not run.w.pools:
            run.fail("no-pool", f"{what}: no pool was ever made")
        want = KeyboardInterrupt if "interrupt" in hit else OSError
        if hit and not isinstance(error, want):
            run.fail("error-lost", f"{what}: gave {short(value)}")
        if not hit and bad is None and error is not None:
            run.fail("error", what)

    run.k.spawn(body, faults=plan["procs"][0]["faults"])
    run.go()
    run.require_end("mapping")


def watched(run, plan, log):
    from dustgoggles.structures import MaybePool
    cfg, k = plan["cfg"], run.k
    jobs = cfg["jobs"]
    keys = [key_of(s, j) for j, s in enumerate(jobs)]
    st = dict(mapped=False, ending=False)
    polls = []

    def poll(pool, joined=False):
        inv = k.stamp()
        n1, r1 = pool.n_results, pool.n_ready
        running = pool.n_running
        r2, n2 = pool.n_ready, pool.n_results
        if st["ending"]:
            return
        what = (f"{len(jobs)} jobs, threads={cfg['threads']}, as_chunks="
                f"{cfg['chunks']}: n_ready={r1}, n_running={running}, "
                f"n_ready={r2}, n_results={n2}")
        if n1 != len(jobs) or n2 != len(jobs):
            raise Violation("count", what)
        if not n1 - r2 <= running <= n1 - r1:
            raise Violation("sum", what)
        by_key = pool.results_ready()
        if st["ending"]:
            return
        if sorted(map(repr, by_key)) != sorted(map(repr, keys)):
            raise Violation("keys", f"{what}: results_ready of "
                            f"{short(list(by_key), 300)}")
        got = sum(map(bool, by_key.values()))
        r3 = pool.n_ready
        whole = pool.ready()
        if st["ending"]:
            return
        if not r2 <= got <= r3:
            raise Violation("sum", f"{what}: then {got} in results_ready, "
                            f"then {r3}")
        if whole or r3 == len(jobs) or running == 0:
            k.probe("complete")
            ev, pid = len(k.events), k.current.pid
            pool.get()
            if not st["ending"] and any(
                    e[0] == pid and e[1] == "pool.wait"
                    for e in k.events[ev:]):
                raise Violation("not-ready", f"{what}: reported as complete "
                                f"(ready(): {whole}) but get() had to wait")
        elif joined:
            raise Violation("never-ready", f"{what}, ready() {whole} after "
                            f"join")
        polls.append((inv, k.stamp(), r1, r3, whole, {
            repr(a) for a, b in by_key.items() if b}))
        log.append((r1, running, r3, whole))

    def watcher(p):
        try:
            k.wait(lambda: st["mapped"], "watch")
            for _ in range(8):
                if st["ending"]:
                    break
                poll(st["pool"])
                k.point("watch")
        except Violation as v:
            if not st["ending"]:
                run.fail(v.cls, v.msg)

    def body(p):
        try:
            pool = st["pool"] = MaybePool(cfg["threads"])
            joined = closed = False
            pool.map(job, records(jobs, 0), as_chunks=cfg["chunks"])
            st["mapped"] = True
            k.changed()
            for op in plan["procs"][0]["ops"]:
                kind = op["op"]
                if kind == "poll":
                    poll(pool, joined)
                elif kind == "marks":
                    for _ in range(op["n"]):
                        k.mark()
                elif kind == "get":
                    pool.get()
                    if not pool.ready():
                        raise Violation("not-ready", "all results fetched, "
                                        "yet ready() is false")
                elif kind == "remap" and not closed:
                    pool.map(job, records(jobs, 0), as_chunks=cfg["chunks"])
                    order()
                elif kind == "close":
                    pool.close()
                    closed = True
                elif kind == "join" and closed:
                    pool.join()
                    joined = True
            st["ending"] = True
            pool.terminate()
        except Violation as v:
            run.fail(v.cls, v.msg)
            return
        for pool in run.w.pools:
            if not pool.shut_down():
                run.fail("orphan", f"pool {pool.state} after terminate")

    def order():
        """earlier polls never report more than later ones"""
        for a in polls:
            for b in polls:
                if a[1] < b[0] and (a[3] > b[2] or a[4] and not b[4] or
                                    a[5] - b[5]):
                    raise Violation("backwards", f"{a[3]} ready, later "
                                    f"{b[2]}; {a[5]} then {b[5]}; ready() "
                                    f"{a[4]} then {b[4]}")
        polls.clear()

    main = k.spawn(body)
    for _ in range(cfg["watchers"]):
        k.spawn(watcher, space=main.space)
    run.go()
    run.require_end("mapping")
    order()
