"""Single-process helpers: info, minimize, replay."""
import json
import os
import pathlib
import sys
import traceback

from sim import findings
from sim.kernel import ListChooser


def info(prop):
    from sim.worker import load
    mod = load(prop)
    print(json.dumps(dict(
        level=getattr(mod, "LEVEL", "exploration"), rule=mod.RULE,
        real=mod.REAL, stub=mod.STUB, assumptions=mod.ASSUMPTIONS,
        quick=mod.QUICK, thorough=mod.THOROUGH,
        findings=[w for _, w in findings.load(prop)])))
    return 0


def trace_of(o):
    out = ["-- operations --", *o.history, "-- preemptions --"]
    out += [f"p{a} before {kind!r} -> p{b}" for a, kind, b in o.switch_log]
    out += ["-- faults --", repr(o.faults)]
    return out


def minimize(path):
    from sim.minimize import Minimizer
    from sim.worker import load
    path = pathlib.Path(path)
    body = json.loads(path.read_text())
    mod = load(body["property"])
    m = Minimizer(mod, body["cls"])
    plan, choices, o = m.run(body["plan"], body["choices"])
    if o is None:
        print("minimised run does not fail")
        return 3
    plan = dict(plan, sched=dict(kind="list", choices=choices))
    body.update(plan=plan, choices=choices, msg=o.violation[1],
                trace=trace_of(o), digest=o.digest(), minimised=True)
    path.write_text(json.dumps(body, indent=1, default=repr) + "\n")
    return 0


def replay(path):
    from sim.worker import load
    body = json.loads(pathlib.Path(path).read_text())
    mod = load(body["property"])
    o = mod.execute(body["plan"], ListChooser(body["choices"]))
    print("\n".join(trace_of(o)))
    if o.violation is None:
        print("replay: the property holds on this run")
        return 0
    print(f"replay: {o.violation[0]}: {o.violation[1]}")
    if o.violation[0] != body["cls"]:
        print(f"replay: expected class {body['cls']}")
        return 4
    if body.get("digest") and body["digest"] != o.digest():
        print("replay: event log differs from the recorded one")
    print(f"VIOLATION property={body['property']} replay={path}")
    return 1


if __name__ == "__main__":
    try:
        code = dict(info=info, minimize=minimize, replay=replay)[
            sys.argv[1]](sys.argv[2])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
