"""C25 reading parquet files by range, and summaries of their metadata."""
import contextlib
import io
import random

import pyarrow as pa
from pyarrow import parquet

from sim import parq
from sim.base import SimRun, Violation, gen_sched, short
from sim.fs import FS
from sim.kernel import HarnessError, SimKill
from sim.props import c20
from sim.props.c20 import NUMBERS, TYPES, keys, missing

parq.install()

ID = "C25"
RULE = ("each run: one parquet file (assorted key types, null, NaN, infinite "
        "and extreme keys, row groups, statistics, other columns) is read by "
        "ranges of keys and its metadata are listed and summarised, while "
        "opens and reads fail, come short or are interrupted; every result "
        "is compared with the rows and the metadata the file has")
REAL = ["dustgoggles.mosaic (read_between, parquet_metadata_records, "
        "meta_record_df, meta_column_df)", "dustgoggles.pivot", "pyarrow",
        "pandas", "interpreter's buffered io layers"]
STUB = ["file system (in memory), below pyarrow's file system interface"]
ASSUMPTIONS = ["nothing changes the file during a call",
               "pyarrow keeps its own promises about errors from files",
               "the caller passes the metadata records of the field"]
QUICK, THOROUGH = 6000, 200000


def gen(rng, i, tier):
    base = c20.gen(rng, i, tier)["cfg"]
    cfg = {q: base[q] for q in (
        "type", "n", "seed", "column", "first", "spread", "missing", "nan",
        "group", "stats", "codec", "dictionary", "fill")}
    cfg["nested"] = rng.random() < 0.2
    ops = []
    for _ in range(rng.choice((1, 2, 3, 5))):
        r = rng.random()
        if r < 0.55:
            ops.append(dict(op="read", low=gen_edge(rng), high=gen_edge(rng),
                            columns=rng.choice((None, None, "key", "others",
                                                "all", "swap")),
                            verbose=rng.random() < 0.1))
        elif r < 0.7:
            ops.append(dict(op="records"))
        elif r < 0.78:
            ops.append(dict(op="replace", seed=rng.randrange(1 << 30),
                            turn=rng.random() < 0.5))
        else:
            ops.append(dict(op="summary", extended=rng.random() < 0.4,
                            whole=rng.random() < 0.7))
    faults = []
    if rng.random() < 0.5:
        for _ in range(rng.choice((1, 1, 2))):
            call = rng.choice(("f.read", "f.read", "f.open"))
            nth = rng.choice((1, 2, 3, 4, 6, 9, 14, 20, 40))
            r = rng.random()
            if call == "f.open":
                nth = min(nth, 4)
            if r < 0.15:
                faults.append(dict(kind="interrupt", call=call, nth=nth))
            elif r < 0.4 and call != "f.open":
                faults.append(dict(kind="errno", call=call, nth=nth,
                                   times=rng.choice((1, 3)), errno=None,
                                   short=rng.choice((0.01, 0.5, 0.9))))
            else:
                faults.append(dict(
                    kind="errno", call=call, nth=nth,
                    times=rng.choice((1, 1, 2, 50)),
                    errno=rng.choice(("EIO", "EACCES", "ESTALE"))))
    return dict(cfg=cfg, procs=[dict(ops=ops, faults=faults)],
                max_steps=60000, sched=gen_sched(rng, 10))


def gen_edge(rng):
    """no bound, a key of the file, or something beside one"""
    r = rng.random()
    if r < 0.2:
        return None
    return [rng.randrange(1 << 16), rng.choice((0, 0, 0, 1, -1))]


def table(cfg):
    t = c20.table(cfg)
    if cfg["nested"]:
        t = t.append_column("nest", pa.array(
            [dict(x=j, y=[f"s{j}"] * (j % 3)) for j in range(len(t))],
            pa.struct([("x", pa.int64()), ("y", pa.list_(pa.string()))])))
    return t


def edge(cfg, values, spec):
    if spec is None or not values:
        return None
    v = values[spec[0] % len(values)]
    if spec[1] and cfg["type"] in NUMBERS:
        if "int" in cfg["type"]:
            bits = int("".join(c for c in cfg["type"] if c.isdigit()))
            lo, hi = (0, 2**bits - 1) if cfg["type"][0] == "u" else (
                -2**(bits - 1), 2**(bits - 1) - 1)
            return min(max(v + spec[1], lo), hi)
        return float(v) * 1.5 if spec[1] > 0 else float(v) / 2
    return v


def make(cfg):
    """a file's rows, keys, bytes, metadata and rows as tuples"""
    rows = table(cfg)
    ks = keys(cfg)
    if "float" in cfg["type"]:
        ks = rows[cfg["column"]].to_pylist()
    values = sorted({v for v in ks if not missing(v)}, key=str)
    data = parq.write(rows, row_group_size=cfg["group"],
                      write_statistics=cfg["stats"],
                      compression=cfg["codec"],
                      use_dictionary=cfg["dictionary"])
    return (rows, values, data, parquet.read_metadata(io.BytesIO(data)),
            list(zip(*(rows[q].to_pylist() for q in rows.schema.names))))


BRIEF = {"column", "type", "comp_size", "uncomp_size", "num_values",
         "dict_page", "encodings", "compression", "col_ix"}


def execute(plan, chooser=None):
    from dustgoggles import mosaic
    cfg = plan["cfg"]
    field = cfg["column"]
    rows, values, data, meta, everything = make(cfg)
    with SimRun(plan, chooser) as run:
        run.w.fs = fs = FS(run.k)
        fs.writers = []
        src = "/simfs/in.parquet"
        fs.put(src, data)
        seen = []

        def attempt(p, kind, args, fn):
            n = sum(run.k.fault_counts.values())
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    return True, fn()
            except (SimKill, HarnessError):
                raise
            except (Exception, KeyboardInterrupt) as ex:
                told = type(ex).__name__, str(ex)
            if sum(run.k.fault_counts.values()) == n:
                raise Violation("spurious-error", f"{kind}{args} of a file "
                                f"with {cfg}: {told[0]}: {short(told[1])}")
            run.k.probe("failed")
            return False, told

        def one(p, op):
            nonlocal cfg, rows, values, data, meta, everything
            if op["op"] == "replace":
                # by other rows, or the same in groups of another size
                cfg = cfg | (dict(group=max(1, cfg["group"] * 2 // 3))
                             if op["turn"] else dict(seed=op["seed"]))
                rows, values, data, meta, everything = make(cfg)
                fs.put(src, data)
                return True, len(data)
            if op["op"] == "read":
                return read(p, op)
            if op["op"] == "records":
                ok, got = attempt(p, "records", (), lambda: mosaic.
                                  parquet_metadata_records(src))
                if ok:
                    judged(check_records, got)
                return ok, len(got)
            if op["whole"]:
                ok, got = attempt(p, "meta_column_df", op, lambda: mosaic.
                                  meta_column_df(src, extended=op["extended"]))
                if ok:
                    judged(lambda: check_summary(got.T, op))
            else:
                ok, got = attempt(
                    p, "meta_record_df", op, lambda: mosaic.meta_record_df(
                        mosaic.parquet_metadata_records(src),
                        extended=op["extended"]))
                if ok:
                    judged(lambda: check_summary(
                        got.set_index("column", drop=False), op))
            return ok, str(got)

        def read(p, op):
            low, high = (edge(cfg, values, op[q]) for q in ("low", "high"))
            names = rows.schema.names
            cols = dict(key=[field], all=names, swap=names[::-1],
                        others=[q for q in names if q != field]).get(
                            op["columns"])

            def fn():
                f = parquet.ParquetFile(src)
                try:
                    recs = [r for r in mosaic.parquet_metadata_records(src)
                            if r["path_in_schema"] == field]
                    kw = {} if cols is None else dict(columns=cols)
                    return mosaic.read_between(
                        f, field, (low, high), recs, verbose=op["verbose"],
                        **kw)
                finally:
                    with contextlib.suppress(Exception):
                        f.close()
            ok, got = attempt(p, "read_between", (low, high, cols), fn)
            if not ok:
                return ok, got
            want = [r for r, k in zip(everything, rows[field].to_pylist())
                    if not missing(k) and (low is None or k >= low)
                    and (high is None or k < high)]
            cols = names if cols is None else cols
            pick = [names.index(q) for q in cols]
            want = [tuple(r[j] for j in pick) for r in want]
            what = f"read_between({low!r}, {high!r}, {op['columns']}), {cfg}"
            if got is None:
                if want:
                    raise Violation("rows-lost", f"{what}: None for "
                                    f"{len(want)} rows")
                return True, None
            if got.schema.names != list(cols):
                raise Violation("columns", f"{what}: {got.schema.names}, not "
                                f"{cols}")
            have = list(zip(*(got[q].to_pylist() for q in cols)))
            if repr(have) != repr(want):
                raise Violation("wrong-rows", f"{what}: {len(have)} rows "
                                f"{short(have)}, not {len(want)} "
                                f"{short(want)}")
            return True, len(have)

        def judged(fn, *args):
            try:
                fn(*args)
            except (AttributeError, LookupError, TypeError, ValueError) as ex:
                raise Violation("malformed", f"{short(args)}: {ex!r}: {cfg}")

        def check_records(got):
            want = [(g, c) for c in range(meta.num_columns)
                    for g in range(meta.num_row_groups)]
            have = [(r["row_group"], r["col_ix"]) for r in got]
            if sorted(have) != sorted(want):
                raise Violation("records", f"{have}, not {want}: {cfg}")
            for r in got:
                c = meta.row_group(r["row_group"]).column(r["col_ix"])
                s = c.statistics
                pairs = [("path_in_schema", c.path_in_schema),
                         ("total_compressed_size", c.total_compressed_size),
                         ("compression", c.compression)]
                if s is not None and s.has_min_max:
                    pairs += [("min", s.min), ("max", s.max)]
                for q, v in pairs:
                    if repr(r.get(q)) != repr(v):
                        raise Violation("records", f"{q} of {r}: not {v!r}")

        def check_summary(got, op):
            want = {}
            for g in range(meta.num_row_groups):
                for c in range(meta.num_columns):
                    x = meta.row_group(g).column(c)
                    w = want.setdefault(x.path_in_schema, dict(
                        type=x.physical_type, comp_size=0, uncomp_size=0,
                        num_values=set(), compression=x.compression,
                        col_ix=c))
                    w["comp_size"] += x.total_compressed_size
                    w["uncomp_size"] += x.total_uncompressed_size
            if sorted(got.index) != sorted(want):
                raise Violation("summary", f"{op}: columns {list(got.index)}, "
                                f"not {sorted(want)}: {cfg}")
            if not op["extended"] and set(got.columns) != BRIEF:
                raise Violation("summary", f"brief: {list(got.columns)}")
            if op["whole"] and got.index.name is not None:
                raise Violation("summary", f"index {got.index.name!r}")
            for q, w in want.items():
                for name, v in w.items():
                    if name == "num_values":
                        continue
                    if str(got.loc[q, name]) != str(v):
                        raise Violation(
                            "summary", f"{op}: {name} of {q!r} is "
                            f"{got.loc[q, name]!r}, not {v!r}: {cfg}")
                v = int(got.loc[q, "num_values"])
                col = [meta.row_group(g).column(w["col_ix"])
                       for g in range(meta.num_row_groups)]
                ok = {sum(c.num_values for c in col)}
                if all(c.statistics is not None for c in col):
                    ok.add(sum(c.statistics.num_values for c in col))
                if v not in ok and not any(c.statistics for c in col):
                    raise Violation("summary", f"{op}: {v} values in {q!r}, "
                                    f"not {ok}: {cfg}")
                if not min(sum(c.statistics.num_values if c.statistics else
                               c.num_values for c in col), *ok) <= v \
                        <= max(ok):
                    raise Violation("summary", f"{op}: {v} values in {q!r}, "
                                    f"not {ok}: {cfg}")

        def body(p):
            try:
                for op in plan["procs"][0]["ops"]:
                    seen.append(one(p, op))
            except Violation as v:
                run.fail(v.cls, v.msg)

        run.k.spawn(body, faults=plan["procs"][0]["faults"])
        run.go()
        run.require_end("reading")
        run.out.digest_extra = repr(seen)
        if fs.content(src) != data:
            raise Violation("file-changed", f"{cfg}")
    return run.out
