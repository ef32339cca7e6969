"""C14 failing steps and sends of compositions."""
import copy
import pathlib

import dustgoggles.composition  # noqa: not while a run is being traced
import dustgoggles.tracker  # noqa

from sim.base import LIB, SimRun, Violation, short
from sim.comp import (EXCS, HARD, Env, Fail, Model, Real, Stop, gen_comp,
                      gen_insert, gen_send, gen_step, gen_value, make_exc)
from sim.fs import FS

ID = "C14"
RULE = ("each run: one composition of 1-6 steps with sends, inserts, "
        "captures, tracker and inner compositions is executed, iterated and "
        "extended again and again while chosen calls of its steps and sends "
        "raise, or an interrupt arrives at some line or instruction of the "
        "library; calls "
        "made, outputs, targets, inserts, captures and the tracker's history "
        "are compared with a reference model")
REAL = ["dustgoggles.composition", "dustgoggles.tracker.Tracker.track",
        "dustgoggles.dynamic.exc_report"]
STUB = ["steps and sends (recording functions)",
        "file system below the tracker (in memory)", "clock"]
ASSUMPTIONS = ["a composition has steps, and containers of its own"]
QUICK, THOROUGH = 50000, 1500000


def gen(rng, i, tier):
    big = i % 250 == 99     # very many steps, or very many runs
    comp = gen_comp(rng, n=rng.choice((None, 35, 70)) if big else None)
    long = big and len(comp["steps"]) < 10
    names = [s["name"] for s in comp["steps"]]
    ops = []
    bind = rng.random() < 0.25
    if bind:
        comp["bind"] = dict(step=rng.choice(names),
                            key=rng.choice((0, 1, "a", "b")))
    for _ in range(300 if long else rng.choice((1, 2, 3, 5))):
        r = rng.random()
        if r < (0.97 if long else 0.72):
            ops.append(dict(op="run", how=rng.choice(
                ("execute", "execute", "call", "iter", "part")),
                signal=gen_value(rng), n=rng.choice((1, 2, 3))))
            if bind and rng.random() < 0.6:
                ops[-1]["special"] = rng.choice((1, "x", [2], 0))
        elif r < 0.82:
            ops.append(dict(op="send", send=dict(gen_send(rng, names),
                                                 init=False)))
        elif r < 0.9:
            ops.append(dict(op="insert", insert=gen_insert(rng, names)))
        elif r < 0.95:
            name = rng.choice(names + [f"n{len(names)}"])
            ops.append(dict(op="step", step=gen_step(rng, name, 1),
                            named=rng.random() < 0.8))
        else:
            ops.append(dict(op=rng.choice(("track", "captures", "capture",
                                           "nothing")),
                            step=rng.choice(names)))
    ops.append(dict(op="run", how="execute", signal=gen_value(rng), n=1))
    faults = []
    mode = rng.choice(("raise", "raise", "raise", "line", "line", "none"))
    fine = mode == "line" and rng.random() < 0.4
    if mode == "raise":
        for _ in range(rng.choice((1, 1, 2, 3))):
            faults.append(dict(
                kind="raise", call=rng.choice(("c.step", "c.step", "c.pipe",
                                               "c.write")),
                nth=rng.choice((1, 1, 2, 3, 4, 6, 9, 300)[:8 if big else 7]),
                exc=rng.choice(EXCS)))
    elif mode == "line":
        faults.append(dict(kind="interrupt", call="line",
                           nth=rng.randint(1, 1200 if fine or big else 160)))
    return dict(cfg=dict(comp=comp, mode=mode, fine=fine),
                procs=[dict(ops=ops, faults=faults)],
                max_steps=2000000 if big else 100000,
                sched=dict(kind="list", choices=[]))


def simpler(plan):
    comp = plan["cfg"]["comp"]
    for key in ("sends", "inserts", "steps"):
        for j in range(len(comp[key])):
            if key == "steps" and (len(comp["steps"]) == 1 or comp["seq"]):
                continue
            q = copy.deepcopy(plan)
            del q["cfg"]["comp"][key][j]
            yield q
    for key in ("captures", "tracker"):
        if comp[key]:
            q = copy.deepcopy(plan)
            q["cfg"]["comp"][key] = False
            yield q


def execute(plan, chooser=None):
    from dustgoggles.tracker import Tracker
    cfg = plan["cfg"]
    faults = plan["procs"][0]["faults"]
    with SimRun(plan, chooser,
                line_prefix=LIB if cfg["mode"] == "line" else None) as run:
        run.w.fs = FS(run.k)
        # where trackers log by default
        run.w.fs.simulate(LIB.rstrip("/").rpartition("/")[0] +
                          "/.tracker_logs")
        k = run.k
        k.trace_opcodes = cfg["fine"]
        box = {}

        def hit(what, ident):
            f = k.point(f"c.{what}", ident)
            if f is not None:
                k.count_fault(f["exc"])
                box["raised"] = make_exc(f["exc"], f"{what} {ident}")
                raise box["raised"]

        log = []

        def body(p):
            try:
                tracker = Tracker("t", outdir=pathlib.Path("/simfs/t")) \
                    if cfg["comp"]["tracker"] else None
                real = Real(cfg["comp"], log, hit, "main", tracker)
                e = Env({(f["call"][2:], f["nth"]): f["exc"] for f in faults
                         if f["kind"] == "raise"})
                box["model"] = Model(cfg["comp"], e)
                for op in plan["procs"][0]["ops"]:
                    if not one(run, box, real, op, log):
                        return
            except Violation as v:
                run.fail(v.cls, v.msg)
            except KeyboardInterrupt:
                return          # while nothing was being executed

        k.spawn(body, faults=faults)
        run.go()
        run.require_end("executing")
        run.out.digest_extra = repr(log)
    return run.out


def one(run, box, real, op, log):
    model = box["model"]
    if op["op"] == "run":
        return execution(run, box, real, op, log)
    if op["op"] == "send":
        n = 1000 + len(log) + len(real.targets)
        if n in real.targets:
            return True
        sd = op["send"]
        real.c.add_send(sd["step"], *real.send(n, sd))
        model.add_send(n, sd)
    elif op["op"] == "insert":
        x = op["insert"]
        real.c.add_insert(x["step"], x["key"], x["value"])
        model.inserts.setdefault(x["step"], {})[x["key"]] = x["value"]
    elif op["op"] == "track":
        real.c.track()
        if real.tracker is None:
            real.tracker = real.c.tracker
            if real.tracker is None:
                raise Violation("untracked", "no tracker after track()")
        elif real.c.tracker is not real.tracker:
            raise Violation("untracked", "track() exchanged the tracker")
    elif op["op"] == "captures":
        real.c.add_captures()
        model.capture_all()
    elif op["op"] == "capture":
        real.c.add_capture(op["step"], None)    # which nobody can see
    elif op["op"] == "nothing":
        try:
            real.c.add_send(op["step"])
        except ValueError:
            return True
        raise Violation("swallowed", "a send of nothing to nowhere")
    else:
        s = op["step"]
        if not op["named"]:
            s = dict(s, name=len(model.steps) + 1)
        real.c.add_step(real.step(s), s["name"] if op["named"] else None)
        model.steps[s["name"]] = s
        model.children.pop(s["name"], None)
        real.children.pop(s["name"], None)
    return True


def run_real(real, op, outs):
    special = {} if op.get("special") is None else \
        dict(special=op["special"])
    if op["how"] == "execute":
        return real.c.execute(op["signal"], **special)
    if op["how"] == "call":
        return real.c(op["signal"], **special)
    it = real.c.itercall(op["signal"], **special)
    n = 0
    while op["how"] == "iter" or n < op["n"]:
        try:
            outs.append(next(it))
        except StopIteration:
            return None
        n += 1
    it.close()


def run_model(model, op, outs, done, at):
    """what should happen; raises Fail"""
    n = 0
    state = None
    try:
        for name, state in model.walk(op["signal"], at,
                                      op.get("special")):
            outs.append(state)
            done.append(name)
            n += 1
            if op["how"] == "part" and n >= op["n"]:
                break
    except Fail as f:
        if model.optional and op["how"] in ("execute", "call") and \
                f.exc not in HARD:
            at.append("swallowed")
            at.append(f.exc)
            return None
        raise
    at[:] = []
    return state if op["how"] in ("execute", "call") else None


def execution(run, box, real, op, log):
    model = box["model"]
    before = copy.deepcopy(model)
    nlog = len(log)
    nhist = len(real.tracker.history) if real.tracker else 0
    outs, got_outs, done, at = [], [], [], []
    model.env.log, model.env.ticks = [], 0
    box["raised"] = None
    nf = run.k.fault_counts.get("interrupt", 0)
    value, error = None, None
    try:
        value = run_real(real, op, got_outs)
    except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as ex:
        from sim.kernel import HarnessError
        if isinstance(ex, HarnessError):
            raise
        error = ex
    except BaseException as ex:
        from sim.kernel import SimKill
        if isinstance(ex, SimKill):
            raise
        error = ex
    if run.k.fault_counts.get("interrupt", 0) > nf:
        return interrupted(run, box, real, op, log, before, nlog, nhist,
                           error)
    # what the model does now must be what has happened
    fail, want = None, None
    try:
        want = run_model(model, op, outs, done, at)
    except Fail as f:
        fail = f
    what = f"{op['how']}({op['signal']!r})"
    got_log = log[nlog:]
    if got_log != model.env.log:
        j = next((j for j, (a, b) in enumerate(zip(got_log, model.env.log))
                  if a != b), min(len(got_log), len(model.env.log)))
        raise Violation("calls", f"{what}: call {j + 1} should be "
                        f"{model.env.log[j:j + 1]}, was {got_log[j:j + 1]}; "
                        f"raised so far {error!r}")
    if fail is None:
        if error is not None:
            raise Violation("unexpected-error", f"{what} raised {error!r}")
        if repr(value) != repr(want):
            raise Violation("output", f"{what} gave {value!r}, not {want!r}")
    else:
        run.k.probe("failed")
        if error is None:
            raise Violation("swallowed", f"{what} gave {value!r} although "
                            f"{at[:2]} raised {fail.exc}")
        check_error(what, error, fail.exc, box["raised"])
    if got_outs and repr(got_outs) != repr(outs):
        raise Violation("outputs", f"{what} yielded {got_outs}, not {outs}")
    if tuple(real.c.index) != tuple(model.steps):
        raise Violation("index", f"{real.c.index} instead of "
                        f"{tuple(model.steps)}")
    if real.state() != model.state():
        raise Violation("state", f"after {what}: {real.state()} instead of "
                        f"{model.state()}")
    if real.tracker is not None:
        exc = fail.exc if fail is not None else \
            at[3] if len(at) > 3 else None
        check_history(run, real, real.tracker.history[nhist:], done, at, exc,
                      op, box["raised"], what)
    return True


def check_error(what, error, exc, raised):
    if exc == "TypeError":          # never injected: too many arguments
        if not isinstance(error, TypeError):
            raise Violation("wrong-error", f"{what} raised {error!r} "
                            f"instead of a TypeError")
        return
    e = error
    while isinstance(e, RuntimeError) and e is not raised and \
            isinstance(raised, StopIteration) and e.__cause__ is not None:
        e = e.__cause__
    if e is not raised:
        raise Violation("wrong-error", f"{what} raised {error!r} instead of "
                        f"{raised!r}")


def check_history(run, real, recs, done, at, exc, op, raised, what):
    want = list(done)
    names = [r.get("step", "?") if "exception" not in r else "!"
             for r in recs]
    ends = [want]
    if exc is not None:
        hard = exc in HARD or op["how"] not in ("execute", "call")
        half = [want] + ([want + [at[0]]] if at[1] == "send" else [])
        ends = [h + ["!"] for h in half] + (half if hard else [])
    elif op["how"] == "part":
        ends.append(want)
    if names not in ends:
        raise Violation("history", f"after {what}: records of {names}, "
                        f"should be {ends[0]}")
    for r in recs:
        step = r["step"] if "exception" not in r else at[0]
        f = real.funcs[step]
        labels = (getattr(f, "__name__", None), str(f))
        if step not in real.children and r["target"] not in labels:
            raise Violation("history-target", f"{short(r)} should name "
                            f"{labels}")
        if "exception" in r and exc not in ("TypeError",):
            text = str(r["exception"])
            if exc not in text or str(raised) not in text and \
                    exc not in ("KeyError", "StopIteration"):
                raise Violation("history-exception", f"{short(r)} should "
                                f"name {raised!r}")


def interrupted(run, box, real, op, log, before, nlog, nhist, error):
    """a keyboard interrupt somewhere in the library"""
    what = f"{op['how']}({op['signal']!r})"
    if not isinstance(error, KeyboardInterrupt):
        raise Violation("interrupt-lost", f"{what}: interrupted, but "
                        f"{'it raised ' + repr(error) if error else 'it went on'}")
    got_log, state = log[nlog:], real.state()
    if not got_log and before.state() == state:
        box["model"] = before
    for stop in range(1, 400) if box["model"] is not before else ():
        m = copy.deepcopy(before)
        m.env.log, m.env.ticks, m.env.stop = [], 0, stop
        more, at = True, []
        try:
            run_model(m, op, [], [], at)
            more = False
        except (Stop, Fail) as ex:
            more = isinstance(ex, Stop)
        if m.env.log == got_log and m.state() == state:
            m.env.stop = None
            box["model"] = m
            break
        if not more:
            if before.state() == state and not got_log:
                box["model"] = before
                break
            raise Violation("interrupt-state", f"{what} interrupted after "
                            f"{got_log} leaves {state}")
    if real.tracker is not None:
        recs = real.tracker.history[nhist:]
        steps = [r.get("step") for r in recs if "exception" not in r]
        order = list(box["model"].steps)
        if steps != order[:len(steps)] or any("exception" in r
                                              for r in recs[:-1]):
            raise Violation("history", f"interrupted {what}: records {recs}")
    return True
