"""
check PROPERTY [quick|thorough]   explore; evidence in evidence/<id>.json
check replay FILE                 re-execute a replay file exactly
"""
import json
import os
import pathlib
import re
import subprocess
import sys
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def child_env(hashseed="0"):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=str(ROOT), OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYTHONNOUSERSITE="1",
               PYTHONWARNINGS="ignore")
    env.setdefault("VERIF_REPO", "/repo")
    return env


def err(msg):
    print(f"CHECK-ERROR {msg}", flush=True)
    return 2


def run_workers(prop, tier, seed, total, workers, deadline, extra=(),
                hashseed="0"):
    procs = []
    per = (total + workers - 1) // workers
    for w in range(workers):
        procs.append(subprocess.Popen(
            [PY, "-m", "sim.worker", prop, tier, str(seed), str(w), str(per),
             str(workers), *extra],
            cwd=ROOT, env=child_env(hashseed), stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL if not os.environ.get("SIM_DEBUG")
            else None, text=True))
    msgs, problems = [], []
    import threading
    lock = threading.Lock()

    def read(w, p):
        got = [json.loads(x) for x in p.stdout if x.startswith("{")]
        p.wait()
        with lock:
            msgs.extend(got)
            if not any(m["t"] in ("summary", "error", "hang") for m in got):
                problems.append(f"worker {w} ended with {p.returncode}")

    threads = [threading.Thread(target=read, args=x, daemon=True)
               for x in enumerate(procs)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(max(1, deadline - time.monotonic()))
    late = [p for p in procs if p.poll() is None]
    for p in late:
        p.kill()
    if late:
        problems.append(f"{len(late)} workers exceeded the wall limit")
        for t in threads:
            t.join(10)
    return msgs, problems


def write_evidence(prop, tier, seed, mod_info, agg, shapes, samples, wall,
                   nviol, notes):
    rate = agg["runs"] / max(wall, 1e-9) * 3600
    ev = dict(
        property=prop, tier=tier, seed=seed, level=mod_info["level"],
        coverage=dict(
            evaluations=agg["runs"],
            distinct_nontrivial=len(shapes),
            rule=mod_info["rule"],
            samples=samples[:3],
            runs_per_hour=int(rate), seeds_per_hour=int(rate),
            simulated_seconds=round(agg["sim_time"], 3),
            simulated_steps=agg["steps"],
            context_switches=agg["switches"],
            nontrivial_runs=agg["nontrivial"],
            distinct_measure="distinct sequences of seam calls (who, which "
            "kind of call) together with the faults that fired and where, "
            "over runs with at least one preemption or fault",
            faults_fired=agg["faults"], probes=agg["probes"],
            run_ends=agg["ends"],
            real_components=mod_info["real"],
            stubbed_components=mod_info["stub"],
            notes=notes),
        assumptions=mod_info["assumptions"], wall_s=round(wall, 2),
        violations=nviol)
    (ROOT / "evidence").mkdir(exist_ok=True)
    path = ROOT / "evidence" / f"{prop}.json"
    tmp = path.with_suffix(".tmp")
    tmp.write_text(json.dumps(ev, indent=1, default=repr) + "\n")
    tmp.replace(path)


def report(prop, seed, v, minimised):
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    path = d / f"{prop}-s{seed}-r{v['i']}.json"
    path.write_text(json.dumps(dict(
        property=prop, verif_seed=seed, run=v["i"], cls=v["cls"],
        msg=v["msg"], **minimised), indent=1, default=repr) + "\n")
    return path


def sub(args, timeout):
    return subprocess.run([PY, "-m", "sim.tool", *args], cwd=ROOT,
                          env=child_env(), capture_output=True, text=True,
                          timeout=timeout)


def explore(prop, tier):
    t0 = time.monotonic()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    r = sub(["info", prop], 120)
    if r.returncode != 0:
        return err(f"cannot load {prop}: {r.stdout[-800:]} {r.stderr[-1500:]}")
    info = json.loads(r.stdout.splitlines()[-1])
    total = int(os.environ.get("SIM_RUNS") or info[tier])
    workers = int(os.environ.get("SIM_WORKERS", "0")) or \
        max(1, min(8, os.cpu_count() or 1))
    limit = float(os.environ.get("SIM_WALL", "0")) or \
        (600 if tier == "quick" else 6 * 3600)
    print(f"{prop} {tier}: VERIF_SEED={seed} runs={total} workers={workers}",
          flush=True)
    msgs, problems = run_workers(prop, tier, seed, total, workers, t0 + limit)
    errors = [m for m in msgs if m["t"] == "error"]
    viols = [m for m in msgs if m["t"] == "violation"]
    hangs = [m for m in msgs if m["t"] == "hang"]
    agg = dict(runs=0, steps=0, sim_time=0.0, faults={}, probes={}, ends={},
               switches=0, nontrivial=0, known={})
    shapes, samples = set(), []
    for m in msgs:
        if m["t"] != "summary":
            continue
        a = m["agg"]
        for k in ("runs", "steps", "sim_time", "switches", "nontrivial"):
            agg[k] += a[k]
        for k in ("faults", "probes", "ends", "known"):
            for n, c in a.get(k, {}).items():
                agg[k][n] = agg[k].get(n, 0) + c
        shapes.update(m["shapes"])
        samples += m["samples"]
    for h in hangs:
        viols.append(dict(t="violation", i=h["i"], cls="hang", plan=h["plan"],
                          choices=h["choices"],
                          msg="an operation burnt its CPU limit without "
                          "reaching a scheduling point: it never returns"))
    wall = time.monotonic() - t0
    samples.sort(key=lambda s: s["run"])
    notes = []
    if problems:
        notes += problems
    write_evidence(prop, tier, seed, info, agg, shapes, samples, wall,
                   len(viols), notes)
    for what in info["findings"]:
        print(f"KNOWN-FINDING: property={prop} {what} "
              f"(met {agg['known'].get(what, 0)} times in this run)")
    if not viols:
        if errors:
            return err(f"{prop}: harness error: {errors[0]['msg'][-3000:]}")
        if problems:
            return err(f"{prop}: {problems}")
        print(f"{prop} {tier}: {agg['runs']} runs, {len(shapes)} distinct "
              f"executions, {agg['switches']} switches, faults "
              f"{agg['faults']}, {wall:.1f}s: held")
        return 0
    v = min(viols, key=lambda m: (m["i"], m["cls"]))
    # minimise and replay in fresh processes
    first = dict(plan=v["plan"], choices=v["choices"])
    path = report(prop, seed, v, first)
    if v["cls"] == "hang":
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['cls']}: {v['msg']}")
        return 1
    ok = False
    try:
        r = sub(["minimize", str(path)], 400)
        ok = r.returncode == 0
        if not ok:
            print(f"  minimiser: {r.stdout[-500:]} {r.stderr[-800:]}")
    except subprocess.TimeoutExpired:
        print("  minimiser ran out of time; replay file is the original run")
    confirmed = False
    for attempt in range(3):
        r = sub(["replay", str(path)], 300)
        if r.returncode == 1:
            confirmed = True
            break
    if not confirmed:
        # fall back to the unminimised run
        path = report(prop, seed, v, first)
        r = sub(["replay", str(path)], 300)
        confirmed = r.returncode == 1
    if not confirmed:
        return err(f"{prop}: run {v['i']} broke ({v['cls']}: {v['msg']}) but "
                   f"does not replay: nondeterminism outside the seams")
    body = json.loads(path.read_text())
    print(f"VIOLATION property={prop} replay={path}")
    print(f"  {body['cls']}: {body['msg']}")
    print(f"  seed {seed} run {v['i']}; exact replay: "
          f"{ROOT}/check replay {path}")
    for line in body.get("trace", [])[-30:]:
        print("   ", line)
    return 1


def main():
    args = sys.argv[1:]
    if len(args) >= 2 and args[0] == "replay":
        r = sub(["replay", args[1]], 600)
        sys.stdout.write(r.stdout)
        sys.stderr.write(r.stderr)
        return r.returncode
    if not args:
        print(__doc__)
        return 2
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if not re.fullmatch(r"C\d\d", args[0]) or tier not in ("quick", "thorough"):
        print(__doc__)
        return 2
    return explore(args[0], tier)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
