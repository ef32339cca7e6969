"""Runs a slice of a property's seeds in a fresh process; talks JSON lines."""
import gc
import importlib
import importlib.util
import json
import os
import posix
import random
import re
import resource
import signal
import sys
import time
import traceback

from sim import findings

CPU_LIMIT = 40.0     # seconds of CPU one run may burn before it counts as hung


def load(prop):
    from sim import env, modstate
    env.install()
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    env.check_repo()
    with open(mod.__file__) as f:
        text = f.read()
    for pkg, names in re.findall(
            r"(?:from|import) +(dustgoggles[\w.]*)(?: +import ([\w, \\]+))?",
            text):
        importlib.import_module(pkg)
        for name in re.findall(r"\w+", names):
            if importlib.util.find_spec(f"{pkg}.{name}") is not None \
                    if hasattr(sys.modules[pkg], "__path__") else False:
                importlib.import_module(f"{pkg}.{name}")
    modstate.take()
    gc.collect()
    gc.freeze()
    gc.disable()
    return mod


def plan_for(mod, seed, i, tier):
    rng = random.Random(f"{mod.ID}:{seed}:{i}")
    return mod.gen(rng, i, tier)


CURRENT = {}


def _hung(signum, frame):
    run = CURRENT.get("run")
    choices = list(run.k.choices) if run is not None else []
    sys.__stdout__.write(json.dumps(dict(
        t="hang", i=CURRENT.get("i"), plan=CURRENT.get("plan"),
        choices=choices)) + "\n")
    sys.__stdout__.flush()
    os._exit(7)


def guarded(mod, plan, chooser=None, i=None):
    CURRENT.update(i=i, plan=plan, run=None)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return mod.execute(plan, chooser)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def many_files():
    """are many files open for good? (C30 maps its blocks from files)"""
    fd = posix.open("/dev/null", posix.O_RDONLY)
    posix.close(fd)
    return fd > 1500


def main():
    prop, tier, seed, start, count, step = sys.argv[1:7]
    seed, start, count, step = int(seed), int(start), int(count), int(step)
    digests = len(sys.argv) > 7 and sys.argv[7] == "digests"
    out = sys.__stdout__
    sys.stdout = sys.stderr
    signal.signal(signal.SIGPROF, _hung)
    try:
        mod = load(prop)
    except Exception:
        out.write(json.dumps(dict(t="error", msg=traceback.format_exc())) + "\n")
        return 2
    agg = dict(runs=0, steps=0, sim_time=0.0, faults={}, probes={}, ends={},
               switches=0, nontrivial=0, known={})
    known = findings.load(prop)
    shapes = set()
    samples = []
    for n in range(count):
        i = start + n * step
        try:
            plan = plan_for(mod, seed, i, tier)
            o = guarded(mod, plan, None, i)
        except Exception:
            out.write(json.dumps(dict(t="error", i=i,
                                      msg=traceback.format_exc())) + "\n")
            return 2
        agg["runs"] += 1
        agg["steps"] += o.steps
        agg["sim_time"] += o.sim_time
        agg["switches"] += o.switches
        for name in ("faults", "probes"):
            for k, v in getattr(o, name).items():
                agg[name][k] = agg[name].get(k, 0) + v
        agg["ends"][str(o.end)] = agg["ends"].get(str(o.end), 0) + 1
        if o.nontrivial:
            agg["nontrivial"] += 1
            shapes.add(o.shape())
        if len(samples) < 1 and o.nontrivial and o.violation is None:
            samples.append(dict(run=i, plan=plan, history=o.history[:12],
                                switches=o.switches, faults=o.faults))
        if digests:
            out.write(json.dumps(dict(t="digest", i=i, d=o.digest())) + "\n")
        what = o.violation and findings.match(known, *o.violation)
        if what:
            agg["known"][what] = agg["known"].get(what, 0) + 1
        elif o.violation is not None:
            out.write(json.dumps(dict(
                t="violation", i=i, cls=o.violation[0], msg=o.violation[1],
                plan=plan, choices=o.choices)) + "\n")
            out.flush()
            agg["violations"] = agg.get("violations", 0) + 1
            if agg["violations"] >= 3:
                break
        if n % 50 == 49 or many_files():
            # (no gc.freeze() here: the last run is still referred to, and
            # what is frozen never goes away)
            gc.collect()
    out.write(json.dumps(dict(t="summary", agg=agg, shapes=sorted(shapes),
                              samples=samples)) + "\n")
    out.flush()
    return 0


if __name__ == "__main__":
    code = main()
    sys.__stdout__.flush()
    os._exit(code)
