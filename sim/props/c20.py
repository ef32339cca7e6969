"""C20 sorting a parquet file by chunks."""
import datetime
import decimal
import hashlib
import math
import pathlib
import random

import pyarrow as pa

from sim import parq
from sim.base import SimRun, Violation, gen_sched, short
from sim.fs import FS
from sim.kernel import HarnessError, SimKill

parq.install()

ID = "C20"
RULE = ("each run: one parquet file (assorted key types, null, NaN, infinite "
        "and extreme keys, row groups, statistics) is sorted by chunks while "
        "reads, writes, opens or the processor fail, come short, are "
        "interrupted or the process is killed; the output is compared with "
        "the input row by row")
REAL = ["dustgoggles.mosaic", "pyarrow", "numpy",
        "interpreter's buffered io layers"]
STUB = ["file system (in memory), below pyarrow's file system interface"]
ASSUMPTIONS = ["one sort at a time on a file, which nothing else changes",
               "pyarrow keeps its own promises about errors from files"]
QUICK, THOROUGH = 6000, 200000

NAN, INF = math.nan, math.inf
TYPES = dict(int8=pa.int8(), int32=pa.int32(), int64=pa.int64(),
             uint8=pa.uint8(), uint64=pa.uint64(), float=pa.float64(),
             float32=pa.float32(), dec=pa.decimal128(12, 2), str=pa.string(),
             bool=pa.bool_(), date=pa.date32(), ts=pa.timestamp("us"),
             dict=pa.dictionary(pa.int32(), pa.string()))
NUMBERS = ("int8", "int32", "int64", "uint8", "uint64", "float", "float32")
COLUMNS = ("k", "key", "a b", "cl\u00e9", "id2")


def gen(rng, i, tier):
    ktype = rng.choice(NUMBERS * 4 + tuple(TYPES))
    n = rng.choice((0, 1, 2, 3, 5, 9, 20, 60, 200))
    big = i % 250 == 99
    if big:
        n = rng.choice((600, 1100, 2500))
    cfg = dict(type=ktype, n=n, seed=rng.getrandbits(32),
               column=rng.choice(COLUMNS), first=rng.random() < 0.5,
               spread=rng.choice(("narrow", "wide", "extreme", "same",
                                  "clustered", "presorted")),
               missing=rng.choice((0, 0, 0.1, 0.5, 1)),
               nan=rng.choice((0, 0, 0.1, 0.5)),
               group=rng.choice((1, 2, 3, 7, 50, 1000)) if not big else
               rng.choice((4, 9, 1000)),
               stats=rng.random() < 0.9, codec=rng.choice(
                   ("NONE", "snappy")), dictionary=rng.random() < 0.5,
               fill=rng.choice((0, 0, 30, 3000)),
               chunks=rng.choice((1, 2, 3, 4, 5, 10, 10, 17, 50)) if not big
               else rng.choice((10, 120, 300)),
               direction=rng.choice(("ascending", "descending")),
               schema=rng.random() < 0.2,
               row_group_size=rng.choice((None, None, 1, 5)),
               use_dictionary=rng.choice((None, None, True, False)),
               version=rng.choice((None, None, "2.4")),
               proc=rng.choice((None, None, "shift", "drop", "raise",
                                "wrong")),
               proc_nth=rng.choice((1, 2, 4)),
               bad_column=rng.random() < 0.03,
               src=rng.choice(("str", "path", "file", "raw")),
               dst=rng.choice(("str", "path", "file")),
               verbose=rng.random() < 0.1, old=rng.random() < 0.2,
               capacity=rng.choice((None,) * 14 + (0, 100, 900, 3000)))
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice((1, 1, 2))):
            call = rng.choice(("f.read", "f.read", "f.write", "f.open"))
            nth = rng.choice((1, 2, 3, 4, 6, 9, 14, 20, 40))
            r = rng.random()
            if call == "f.open":
                nth = min(nth, 3)
            if r < 0.12:
                faults.append(dict(kind="interrupt", call=call, nth=nth))
            elif r < 0.24:
                faults.append(dict(kind="kill", call=call, nth=nth))
            elif r < 0.4 and call != "f.open":
                faults.append(dict(kind="errno", call=call, nth=nth,
                                   times=rng.choice((1, 3)), errno=None,
                                   short=rng.choice((0.01, 0.5, 0.9))))
            else:
                faults.append(dict(
                    kind="errno", call=call, nth=nth,
                    times=rng.choice((1, 1, 2, 50)),
                    errno=rng.choice(("EIO", "ENOSPC", "EACCES", "ESTALE"))))
    return dict(cfg=cfg, procs=[dict(ops=[], faults=faults)], max_steps=60000,
                sched=gen_sched(rng, 10))


def keys(cfg):
    rng = random.Random(f"rows:{cfg['seed']}")
    t, n, spread = cfg["type"], cfg["n"], cfg["spread"]
    out = []
    for j in range(n):
        x = {"narrow": rng.randrange(4), "wide": rng.randrange(-10**4, 10**4),
             "same": 7, "clustered": rng.choice((0, 1, 2, 9000)),
             "presorted": j}.get(spread)
        if "int" in t:
            bits = int("".join(c for c in t if c.isdigit()))
            lo, hi = (0, 2**bits - 1) if t[0] == "u" else (
                -2**(bits - 1), 2**(bits - 1) - 1)
            v = rng.choice((lo, lo + 1, hi, hi - 1, hi // 2, 0, 1,
                            rng.randint(lo, hi))) \
                if x is None else min(max(x, lo), hi)
        elif t in ("float", "float32"):
            v = x + rng.choice((0, 0.25)) if x is not None else rng.choice(
                (INF, -INF, 0.0, -0.0, 1.0, 3e38, -3e38, 1e-45) + (
                    (1e308, -1.7e308, 5e-324, 2.0**53 + 2)
                    if t == "float" else ()))
            if rng.random() < cfg["nan"]:
                v = NAN
        elif t == "dec":
            v = decimal.Decimal(x if x is not None else rng.choice(
                (10**9, -10**9, 1, 0))) + decimal.Decimal(
                    rng.choice(("0.25", "0.5", "0", "0.01")))
        elif t in ("str", "dict"):
            v = f"s{x}"
        elif t == "bool":
            v = bool((x or 0) % 2)
        elif t == "date":
            v = datetime.date(2000, 1, 1) + datetime.timedelta(x or 0)
        else:
            v = datetime.datetime(2000, 1, 1) + datetime.timedelta(
                seconds=x or 0)
        out.append(None if rng.random() < cfg["missing"] else v)
    return out


def table(cfg):
    k = pa.array(keys(cfg), TYPES[cfg["type"]])
    n = len(k)
    cols = {cfg["column"]: k} if cfg["first"] else {}
    cols["id"] = pa.array(range(n), pa.int32())
    cols["text"] = pa.array([f"row {j}" + "." * cfg["fill"]
                             for j in range(n)], pa.string())
    cols.setdefault(cfg["column"], k)
    return pa.table(cols)


SHIFT = 1000000


class ProcessorError(Exception):
    pass


def missing(v):
    return v is None or v != v


def execute(plan, chooser=None):
    from dustgoggles import mosaic
    cfg = plan["cfg"]
    rows = table(cfg)
    data = parq.write(rows, row_group_size=cfg["group"],
                      write_statistics=cfg["stats"],
                      compression=cfg["codec"],
                      use_dictionary=cfg["dictionary"])
    with SimRun(plan, chooser) as run:
        run.w.fs = fs = FS(run.k)
        fs.writers = []
        src, dst = "/simfs/in.parquet", "/simfs/out.parquet"
        fs.put(src, data)
        if cfg["old"]:
            fs.put(dst, b"PAR1 something from before PAR1")
        if cfg["capacity"] is not None:
            fs.capacity = fs.used() + cfg["capacity"]
        state = dict(ended=False, processed=0, proc_raised=False)

        def processor(t):
            run.k.mark("processor")
            state["processed"] += 1
            if state["processed"] == cfg["proc_nth"]:
                if cfg["proc"] == "raise":
                    state["proc_raised"] = True
                    run.k.count_fault("processor_raises")
                    raise ProcessorError("no")
                if cfg["proc"] == "wrong":
                    state["proc_raised"] = True
                    run.k.count_fault("processor_breaks_schema")
                    return t.drop_columns(["text"])
            j = t.schema.get_field_index("id")
            if cfg["proc"] == "shift":
                return t.set_column(j, "id", pa.array(
                    [x + SHIFT for x in t["id"].to_pylist()], pa.int32()))
            if cfg["proc"] == "drop":
                return t.filter(pa.array([x % 3 != 1 for x in
                                          t["id"].to_pylist()], pa.bool_()))
            return t

        def given(path, form, mode):
            if form == "str":
                return path
            if form == "path":
                return pathlib.Path(path)
            f = fs.open(path, mode, buffering=0 if form == "raw" else -1)
            mine.append(f)
            return f

        mine = []

        def body(p):
            error = None
            try:
                a = given(src, cfg["src"], "rb")
                b = given(dst, cfg["dst"], "wb")
            except (OSError, KeyboardInterrupt):
                state["ended"] = None       # the caller's own failure
                return
            before = len(fs.handles)
            kw = {k: cfg[k] for k in ("row_group_size", "use_dictionary",
                                      "version") if cfg[k] is not None}
            if cfg["schema"]:
                kw["schema"] = rows.schema
            if cfg["proc"] is not None:
                kw["inline_processor"] = processor
            try:
                mosaic.sort_chunked(
                    a, b, "nothing" if cfg["bad_column"] else cfg["column"],
                    cfg["direction"], n_chunks=cfg["chunks"],
                    verbose=cfg["verbose"], **kw)
            except (SimKill, HarnessError):
                raise
            except (Exception, KeyboardInterrupt) as ex:
                error = ex
                state["open"] = [h.name for h in fs.handles[before:]
                                 if h.writable() and not h.closed]
                state["left"] = [w for w, closed in fs.writers if not closed]
                state["error"] = type(ex).__name__, str(ex)
            if error is None:
                try:
                    for f in mine:
                        f.close()
                except (OSError, KeyboardInterrupt):
                    state["ended"] = None   # told when the file was closed
                    return
            state["ended"] = True
            error = None

        import contextlib
        import io
        told = io.StringIO()
        with contextlib.redirect_stdout(told):
            run.k.spawn(body, faults=plan["procs"][0]["faults"])
            run.go()
        state["printed"] = told.getvalue()
        run.require_end("sorting")
        out = fs.content(dst)
        run.out.digest_extra = repr((state.get("error"), state["processed"],
                                     hashlib.sha256(out or b"").hexdigest()))
        try:
            judge(run, plan, cfg, rows, state, out)
        finally:
            fs.writers.clear()
            state.clear()
            for f in mine:
                with contextlib.suppress(Exception, SimKill):
                    f.close()
    return run.out


def judge(run, plan, cfg, rows, state, out):
    hit = [f for f in run.k.fault_log if f[0] != "stall"]
    counts = run.k.fault_counts
    short_only = bool(hit) and all(f[0] == "errno" for f in hit) and \
        not any(counts.get(e) for e in ("EIO", "ENOSPC", "EACCES", "ESTALE"))
    if state["ended"] is None:
        run.k.probe("caller_failed")
        return
    try:
        got = run.aside(parq.read, out) if out else None
    except (pa.ArrowException, OSError, ValueError):
        got = None
    if not state["ended"]:                  # killed
        run.k.probe("killed")
        if got is not None:
            compare(cfg, rows, got, "after a kill the output looks whole")
        return
    if "error" not in state:
        if got is None:
            raise Violation("no-output", f"sorting succeeded, but the output "
                            f"({len(out or b'')} bytes) is no parquet file")
        if state["proc_raised"]:
            raise Violation("error-lost", "the processor failed, but sorting "
                            "returned as usual")
        run.k.probe("sorted_despite_fault" if hit else "sorted")
        compare(cfg, rows, got, "sorting succeeded")
        layout(cfg, run.aside(parq.metadata, out), state["printed"])
        return
    run.k.probe("failed")
    name, text = state["error"]
    raised = any(counts.get(e) for e in ("EIO", "ENOSPC", "EACCES", "ESTALE",
                                         "interrupt", "disk_full"))
    if not (hit or raised or state["proc_raised"] or cfg["bad_column"] or
            cfg["type"] not in NUMBERS):
        raise Violation("spurious-error", f"nothing went wrong, but sorting "
                        f"{cfg} failed: {name}: {short(text)}")
    if state["left"] and not raised:
        raise Violation("output-open", f"sorting failed ({name}: "
                        f"{short(text)}), and its writer was left open")
    if state["left"] and raised:
        raise Violation("output-open", f"sorting failed ({name}: "
                        f"{short(text)}), and its writer was never closed")
    wfault = any(e[1] == "f.write" for e in run.k.events) and raised
    if state["open"] and not wfault:
        raise Violation("output-open", f"sorting failed ({name}: "
                        f"{short(text)}), and {state['open']} stays open")


def layout(cfg, meta, printed):
    """what was asked for is how it was written"""
    size = cfg["row_group_size"]
    groups = [meta.row_group(g) for g in range(meta.num_row_groups)]
    if size is not None and any(g.num_rows > size for g in groups):
        raise Violation("layout", f"row groups of "
                        f"{[g.num_rows for g in groups]} rows: {cfg}")
    if cfg["use_dictionary"] is False and any(
            g.column(c).has_dictionary_page for g in groups
            for c in range(meta.num_columns)):
        raise Violation("layout", f"dictionaries in the output: {cfg}")
    if printed and not cfg["verbose"]:
        raise Violation("noise", f"printed {short(printed)}: {cfg}")


def compare(cfg, rows, got, when):
    ids = got["id"].to_pylist()
    shift = SHIFT if cfg["proc"] == "shift" else 0
    want = {j + shift: (k, t) for j, k, t in zip(
        rows["id"].to_pylist(), rows[cfg["column"]].to_pylist(),
        rows["text"].to_pylist()) if cfg["proc"] != "drop" or j % 3 != 1}
    have = got[cfg["column"]].to_pylist()
    what = f"{when} ({cfg})"
    if got.schema.names != rows.schema.names or \
            got.schema.types != rows.schema.types:
        raise Violation("schema", f"{what}: columns {got.schema}")
    if len(set(ids)) != len(ids):
        raise Violation("rows-repeated", f"{what}: rows written twice")
    lost = set(want) - set(ids)
    if lost:
        some = [(j, want[j][0]) for j in sorted(lost)[:4]]
        raise Violation("rows-lost", f"{what}: {len(lost)} rows missing from "
                        f"the output: {some}")
    if set(ids) - set(want):
        raise Violation("rows-invented", f"{what}: {set(ids) - set(want)}")
    for j, k, t in zip(ids, have, got["text"].to_pylist()):
        if repr((k, t)) != repr(want[j]):
            raise Violation("row-changed", f"{what}: row {j} is "
                            f"{short((k, t))}, not {short(want[j])}")
    present = [k for k in have if not missing(k)]
    if any(missing(k) for k in have[:len(present)]):
        raise Violation("order", f"{what}: rows without a key are not last")
    for a, b in zip(present, present[1:]):
        if (a > b) if cfg["direction"] == "ascending" else (a < b):
            raise Violation("order", f"{what}: {a!r} before {b!r}")
