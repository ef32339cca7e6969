#!/usr/bin/env python3
"""reach.py N [PROPS]: which lines of the library N runs of each check execute
(each check in a process of its own), and which no check does."""
import ast
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def one(prop, n):
    from sim import worker
    hit = {}
    mon = sys.monitoring
    mon.use_tool_id(3, "reach")
    lib = os.environ.get("VERIF_REPO", "/repo") + "/dustgoggles/"

    def line(code, no):
        if code.co_filename.startswith(lib):
            hit.setdefault(code.co_filename[len(lib):], set()).add(no)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    mod = worker.load(prop)
    for i in range(n):
        worker.guarded(mod, worker.plan_for(mod, 1, i, "quick"), None, i)
    mon.set_events(3, 0)
    print("\n" + json.dumps({k: sorted(v) for k, v in hit.items()}))


def lines(path):
    """first lines of the statements inside functions"""
    out = set()
    for f in ast.walk(ast.parse(open(path).read())):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            for s in getattr(f, "body", []) if isinstance(
                    f, ast.FunctionDef) else []:
                for q in ast.walk(s):
                    if isinstance(q, ast.stmt) and not (
                            isinstance(q, ast.Expr) and isinstance(
                                q.value, ast.Constant)):
                        out.add(q.lineno)
    return out


if sys.argv[1] == "one":
    one(sys.argv[2], int(sys.argv[3]))
    sys.exit()
n = sys.argv[1]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[2:] or sorted(
    f[:-3].upper() for f in os.listdir(f"{here}/sim/props")
    if f.startswith("c") and f[1:3].isdigit())
total, jobs = {}, []
for p in props:
    jobs.append((p, subprocess.Popen(
        [sys.executable, __file__, "one", p, n], stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, text=True, env=os.environ | dict(
            PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))))
for p, j in jobs:
    out, err = j.communicate()
    try:
        got = json.loads(out.strip().splitlines()[-1])
    except (IndexError, ValueError):
        print(p, "failed", err[-300:])
        continue
    for k, v in got.items():
        total.setdefault(k, set()).update(v)
lib = os.environ.get("VERIF_REPO", "/repo") + "/dustgoggles/"
for root, _, files in os.walk(lib):
    for f in sorted(files):
        path = os.path.join(root, f)
        name = path[len(lib):]
        if not f.endswith(".py") or "test" in name:
            continue
        all_ = lines(path)
        miss = sorted(all_ - total.get(name, set()))
        print(f"{name}: {len(all_) - len(miss)}/{len(all_)}; not reached: "
              f"{miss}")
