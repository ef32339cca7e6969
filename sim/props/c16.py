"""C16 pool mapping: each job's outcome under its own key."""
import copy

from sim.base import SimRun, Violation, gen_sched, short
from sim.kernel import HarnessError, SimKill
from sim.poolrun import gen_jobs, job, key_of, many, matches, records

ID = "C16"
RULE = ("each run: 0-13 jobs, some of which fail, are mapped once or twice "
        "into a pool of 1-5 workers (or none), whole or in chunks, while the "
        "scheduler decides who takes up and finishes which job when; every "
        "job's entry is compared with what that job does")
REAL = ["dustgoggles.structures.map_into_pool, MaybePool, MaybeResult",
        "pickling of jobs and outcomes as multiprocessing does it",
        "more_itertools.divide"]
STUB = ["multiprocessing.Pool (workers are simulated processes)",
        "process scheduling"]
ASSUMPTIONS = ["jobs neither end nor interrupt their worker process",
               "no job returns an exception (it would pass for a failed "
               "one when exceptions are filtered)",
               "jobs and their arguments can be pickled",
               "keys are distinct"]
STUCK = ("locked", "poison", "cracked")     # never make it back
QUICK, THOROUGH = 25000, 800000


def gen(rng, i, tier):
    threads = rng.choice((None, 1, 1, 2, 2, 3, 4, 5))
    maps = []
    api = rng.choice(("into", "into", "pool"))
    for m in range(rng.choice((1, 1, 1, 2, 3))):
        jobs = gen_jobs(rng, threads, many(rng, i))
        if threads is None and rng.random() < 0.05 and jobs:
            rng.choice(jobs)["do"] = "interrupt"
        if threads is not None and rng.random() < 0.15 and jobs:
            for _ in range(rng.choice((1, 1, 2))):
                rng.choice(jobs)["do"] = rng.choice(STUCK)
        maps.append(dict(
            jobs=jobs, chunks=rng.choice((None, True, False)),
            form=rng.choice(("list", "list", "tuple", "iter")),
            filter=rng.random() < 0.3, strict=rng.random() < 0.2,
            again=rng.choice((None, None, "reversed", "some", "same"))))
    return dict(cfg=dict(threads=threads, api=api),
                procs=[dict(ops=maps, faults=[])],
                max_steps=40000 if i % 250 != 99 else 1000000,
                sched=gen_sched(rng, 150))


def simpler(plan):
    for m, mp in enumerate(plan["procs"][0]["ops"]):
        for j in range(len(mp["jobs"])):
            q = copy.deepcopy(plan)
            del q["procs"][0]["ops"][m]["jobs"][j]
            yield q
        if mp["again"]:
            q = copy.deepcopy(plan)
            q["procs"][0]["ops"][m]["again"] = None
            yield q
    if (plan["cfg"]["threads"] or 0) > 1:
        q = copy.deepcopy(plan)
        q["cfg"]["threads"] -= 1
        yield q


def execute(plan, chooser=None):
    from dustgoggles.structures import MaybePool, map_into_pool
    cfg = plan["cfg"]
    with SimRun(plan, chooser) as run:
        run.w.pool_ok = True
        run.w.jobs, run.w.ran = {}, []
        log = []

        def body(p):
            pool = MaybePool(cfg["threads"]) if cfg["api"] == "pool" else None
            try:
                for n, mp in enumerate(plan["procs"][0]["ops"]):
                    recs = records(mp["jobs"], 0)
                    one(mp, recs, list(range(len(recs))), n, pool)
                    order = list(range(len(recs)))
                    if mp["again"] == "reversed":
                        order.reverse()
                    elif mp["again"] == "some":
                        order = order[1::2]
                    if mp["again"]:         # the caller's records once more
                        one(mp, [recs[j] for j in order], order, n, pool)
            except Violation as v:
                run.fail(v.cls, v.msg)
            finally:
                if pool is not None and not p.dead:
                    pool.terminate()

        def one(mp, recs, order, n, pool):
            jobs = [mp["jobs"][j] for j in order]
            run.w.jobs = dict(enumerate(mp["jobs"]))
            run.w.ran = ran = []
            arg = recs if mp["form"] == "list" else tuple(recs) \
                if mp["form"] == "tuple" else iter(recs)
            kw = {} if mp["chunks"] is None else {"as_chunks": mp["chunks"]}
            what = (f"mapping {n} of {len(jobs)} jobs, threads="
                    f"{cfg['threads']}, {kw}")
            value, error = None, None
            try:
                if pool is not None:
                    pool.map(job, arg, **kw)
                    value = pool.get(mp["strict"])
                    if not mp["strict"] and repr(pool.get()) != repr(value):
                        raise Violation("get-twice", f"{what}: second get "
                                        f"gave {short(pool.get(), 300)}")
                else:
                    value = map_into_pool(job, arg, cfg["threads"],
                                          filter_exc=mp["filter"], **kw)
            except (SimKill, HarnessError, Violation):
                raise
            except (Exception, KeyboardInterrupt) as ex:
                error = ex
            if pool is not None and mp["strict"] and error is not None:
                pool.get()          # let the rest finish
            log.append((what, short(value, 400), type(error).__name__))
            judge(mp, jobs, order, pool, value, error, what)
            if error is None and sorted(ran) != sorted(order):
                raise Violation("run-count", f"{what}: jobs run {ran}")

        def judge(mp, jobs, order, pool, value, error, what):
            if any(s["do"] == "interrupt" for s in jobs):
                if not isinstance(error, KeyboardInterrupt):
                    raise Violation("interrupt-lost", f"{what}: an "
                                    f"interrupted job gave {error!r}")
                return
            failing = [(s, j) for s, j in zip(jobs, order) if s["do"] != "ok"]
            if pool is not None and mp["strict"] and failing:
                if error is None or not any(matches(s, j, error)
                                            for s, j in failing):
                    raise Violation("not-raised", f"{what}: get(raise_exc="
                                    f"True) gave {short(value)}, {error!r}")
                run.k.probe("raised")
                return
            if error is not None:
                raise Violation("error", f"{what} raised {error!r}")
            want = {}
            for pos, (s, j) in enumerate(zip(jobs, order)):
                if pool is None and mp["filter"] and s["do"] != "ok":
                    continue
                want[key_of(s, pos)] = (s, j)
            missing = [k for k in want if k not in value]
            extra = [k for k in value if k not in want]
            if missing or extra:
                raise Violation("keys", f"{what}: no entry for {missing}, "
                                f"unknown entries {short({k: value[k] for k in extra}, 300)}")
            for k, (s, j) in want.items():
                if not matches(s, j, value[k]):
                    raise Violation("outcome", f"{what}: entry {k!r} is "
                                    f"{short(value[k], 200)} for job {j}: "
                                    f"{s}")
                if s["do"] != "ok":
                    run.k.probe("job_failed")

        run.k.spawn(body)
        run.go()
        run.require_end("mapping")
        run.out.digest_extra = repr(log)
    return run.out
