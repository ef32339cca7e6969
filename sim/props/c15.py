"""C15 one composition executed by several threads or iterators at once."""
import copy
import pathlib

import dustgoggles.composition  # noqa: not while a run is being traced
import dustgoggles.tracker  # noqa

from sim.base import LIB, SimRun, Violation, gen_sched
from sim.comp import Env, Fail, Model, Real, gen_comp, gen_value, make_exc
from sim.fs import FS

ID = "C15"
RULE = ("each run: 1-4 threads execute or step through one composition, each "
        "possibly holding several iterators; threads change at any source "
        "line, or any bytecode instruction, of the library; every "
        "output, call and record is compared with those of the input alone")
REAL = ["dustgoggles.composition", "dustgoggles.tracker.Tracker.track"]
STUB = ["thread scheduling (one thread at a time, by seed)",
        "steps and sends (recording functions)",
        "file system below the tracker (in memory)", "clock"]
ASSUMPTIONS = ["no sends into the composition itself",
               "threads change while the library's code runs, not within "
               "one C function"]
QUICK, THOROUGH = 5000, 120000


def gen(rng, i, tier):
    big = i % 250 == 99     # very many steps, or very many runs
    comp = gen_comp(rng, threads=True,
                    n=rng.choice((None, 35)) if big else None)
    long = big and len(comp["steps"]) < 10
    for s in comp["steps"]:
        if s["shape"] == "falsy" and rng.random() < 0.5:
            s["shape"] = "str"
    procs = []
    nthreads = rng.choice((1, 2, 2, 3, 4))
    n = 0
    for _ in range(nthreads):
        ops = []
        for _ in range(300 // nthreads if long else rng.choice((1, 1, 2, 3))):
            n += 1
            if nthreads == 1 or rng.random() < 0.25:
                k = rng.choice((2, 2, 3))
                ops.append(dict(op="weave", signals=[
                    f"{n}.{j}" for j in range(k)],
                    order=[rng.randrange(k) for _ in range(
                        rng.choice((3, 6, 12)))]))
            else:
                ops.append(dict(op="run", signal=f"{n}", how=rng.choice(
                    ("execute", "execute", "call", "iter"))))
        procs.append(dict(ops=ops, faults=[]))
    if rng.random() < 0.2:
        procs[0]["faults"] = [dict(kind="raise", call=rng.choice(
            ("c.step", "c.step", "c.pipe")), nth=rng.choice((1, 1, 2, 3)),
            exc="ValueError")]
    fine = rng.random() < 0.25
    return dict(cfg=dict(comp=comp, fine=fine), procs=procs, max_steps=4000000 if big else 200000,
                sched=gen_sched(rng, (900 if fine else 120) * nthreads))


def simpler(plan):
    comp = plan["cfg"]["comp"]
    for key in ("sends", "inserts", "steps"):
        for j in range(len(comp[key])):
            if key == "steps" and (len(comp["steps"]) == 1 or comp["seq"]):
                continue
            q = copy.deepcopy(plan)
            del q["cfg"]["comp"][key][j]
            yield q
    for key in ("captures", "tracker"):
        if comp[key]:
            q = copy.deepcopy(plan)
            q["cfg"]["comp"][key] = False
            yield q


def execute(plan, chooser=None):
    from dustgoggles.tracker import Tracker
    comp = plan["cfg"]["comp"]
    with SimRun(plan, chooser, line_prefix=LIB) as run:
        run.w.fs = FS(run.k)
        k = run.k
        k.trace_opcodes = plan["cfg"]["fine"]

        def hit(what, ident):
            f = k.point(f"c.{what}", ident)
            if f is not None:
                k.count_fault(f["exc"])
                raise make_exc(f["exc"], f"{what} {ident}")

        tracker = Tracker("t", outdir=pathlib.Path("/simfs/t")) \
            if comp["tracker"] else None
        log = []
        real = Real(comp, log, hit, "main", tracker)
        model = Model(comp, Env({}))
        before = real.state()["inserts"]
        # the calls and outputs each signal gives rise to by itself
        alone = {}
        for spec in plan["procs"]:
            for op in spec["ops"]:
                for s in op.get("signals", [op.get("signal")]):
                    m = copy.deepcopy(model)
                    m.env.log = []
                    outs = []
                    broken = False
                    try:
                        for _, v in m.walk(s):
                            outs.append(repr(v))
                    except Fail:
                        broken = True
                    alone[s] = (outs, list(m.env.log), broken)
        broke, started, finished = [], [], []

        def compare(s, outs, whole, what):
            want = alone[s][0]
            if outs != (want if whole else want[:len(outs)]):
                raise Violation("mixed", f"{what} of {s!r} gave {outs}; "
                                f"alone it gives {want}")

        def act(op):
            c = real.c
            if op["op"] == "run":
                s = op["signal"]
                started.append(s)
                if op["how"] == "iter":
                    o = run.h.do("iter", (s,), lambda: list(
                        c.itercall(s)))
                    if o.ok:
                        compare(s, [repr(v) for v in o.value], True, "iter")
                else:
                    o = run.h.do("run", (s,), lambda: c.execute(s)
                                 if op["how"] == "execute" else c(s))
                    if o.ok and not (alone[s][2] and comp["optional"]):
                        if o.value is None and comp["optional"] and \
                                plan["procs"][0]["faults"]:
                            broke.append(s)
                            return
                        compare(s, [repr(o.value)] if not alone[s][0] else
                                alone[s][0][:-1] + [repr(o.value)], True,
                                "execution")
                if o.ok:
                    finished.append(s)
                elif alone[s][2] or o.exc == "ValueError" and \
                        plan["procs"][0]["faults"]:
                    broke.append(s)
                else:
                    raise Violation("error", f"{o!r}")
                return
            its = [c.itercall(s) for s in op["signals"]]
            outs = [[] for _ in its]
            over = [False] * len(its)
            started.extend(op["signals"])
            for j in op["order"] + [j for j in range(len(its))
                                    for _ in range(len(comp["steps"]) + 9)]:
                if over[j]:
                    continue
                s = op["signals"][j]
                try:
                    outs[j].append(repr(next(its[j])))
                except StopIteration:
                    over[j] = True
                    compare(s, outs[j], True, "iterator")
                    finished.append(s)
                    continue
                except Exception as ex:
                    over[j] = True
                    if not (alone[s][2] or plan["procs"][0]["faults"]):
                        raise Violation("error", f"iterating {s!r}: {ex!r}")
                    broke.append(s)
                compare(s, outs[j], False, "iterator")

        def body(spec):
            def fn(p):
                try:
                    for op in spec["ops"]:
                        act(op)
                except Violation as v:
                    run.fail(v.cls, v.msg)
            return fn

        space = None
        for spec in plan["procs"]:
            p = k.spawn(body(spec), faults=spec["faults"], space=space)
            space = p.space
        run.go()
        run.require_end("executing")
        if real.state()["inserts"] != before:
            raise Violation("inserts", f"inserts were {before}, are now "
                            f"{real.state()['inserts']}")
        for s in comp["steps"]:
            f = real.funcs[s["name"]]
            if s["form"] == "partial" and (
                    list(f.args) != s["args"] or f.keywords != s["kwargs"]):
                raise Violation("partial", f"{s} has become {f}")
        if not broke:
            want = sorted(e for s in finished for e in alone[s][1])
            if sorted(log) != want:
                odd = [e for e in log if e not in want][:2]
                raise Violation("calls", f"{len(log)} calls instead of "
                                f"{len(want)}; not expected: {odd}")
            if tracker is not None:
                recs = sorted(str(r.get("step")) for r in tracker.history)
                want = sorted(str(s["name"]) for s in comp["steps"]
                              for _ in finished)
                if recs != want:
                    raise Violation("history", f"records of {recs} instead "
                                    f"of {want}")
        run.out.digest_extra = repr(log)
    return run.out
