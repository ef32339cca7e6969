"""C19 cached label loading, scraping and listing."""
import ast
import re
import types

from sim.base import LIB, SimRun, Violation, gen_sched, short
from sim.fs import FS
from sim.kernel import HarnessError, SimKill

ID = "C19"
RULE = ("each run: 1-3 threads load, trim, scrape and list up to three files "
        "again and again through the cached functions, while files are "
        "replaced, removed and created and opens and reads fail or are "
        "interrupted; every result is compared with the version of the file "
        "it may show, and every access to the file system is counted")
REAL = ["dustgoggles.scrape", "functools.cache", "interpreter's io layers"]
STUB = ["file system (in memory)", "thread scheduling"]
ASSUMPTIONS = ["threads change only where the file system is used or a label "
               "is handed over", "a file is replaced as a whole",
               "callers do not change the objects they are given"]
QUICK, THOROUGH = 40000, 1200000

PATTERNS = {"version": r"VERSION = (\d+)", "list": r"LIST = ([^\r]*)\r",
            "set": r"SET = ([^\r]*)\r", "word": r"WORD = (\w+)",
            "none": r"NOTHING = (\d+)", "tail": r"TAIL = (\d+)",
            "odd": r"ODD = ([^\r]*)\r"}
ODD = ("1 + 2", "", "[[[", "{[1]: 2}", "{{1}, {2}}", "0x", "1e999", "'a", "-3",
       "\u706b", "None", "(" * 12, "{1}", "__import__('os')", "f()")
DEFAULT = 35592


def text_of(f, v):
    out = (f"VERSION = {v}\r\nLIST = (1, 2, {v})\r\nSET = {{{{{v}}}, {{2}}}}\r\n"
           f"WORD = HELLO{v}\r\nODD = {ODD[(v + f['odd']) % len(ODD)]}\r\n")
    out += "FILL\r\n" * f["fill"] + f"TAIL = {v}\r\n"
    if v % 4 == f.get("bad"):       # not text at all
        out = out[:f["fill"] % 50] + "\udcff" + out[f["fill"] % 50:]
    return out + {"end": "END\r\nrest", "null": "\0\0\0rest",
                  "none": ""}[f["end"]]


def raw_of(text):
    return text.encode(errors="surrogateescape")


def many(rng, i):
    """a whole data set, gone through several times"""
    files = [dict(name=f"/simfs/d{j % 2}/{i}_{rng.getrandbits(40)}_{j}.lbl",
                  form=rng.choice(("str", "path")), fill=0, odd=j, bad=None,
                  end=rng.choice(("end", "null")), there=rng.random() < 0.9)
             for j in range(rng.choice((130, 140, 260, 300, 520, 1030)))]
    kind = rng.choice(("load", "trim", "from", "patterns", "exists", "bulk"))
    ops = []
    for _ in range(2):
        for f in rng.sample(range(len(files)), len(files)):
            ops.append(dict(
                load=dict(op="load", f=f, n=None),
                trim=dict(op="trim", f=f, strict=False),
                exists=dict(op="exists", f=f),
                patterns=dict(op="patterns", f=f, pats=["version", "word"],
                              extra=None, loader=rng.choice((None, "trim"))),
                bulk=dict(op="bulk", fs=[f], lazy=False)).get(
                    kind, dict(op="from", f=f, pat="version")))
        for d in 0, 1:
            ops.append(dict(op="ls", d=d))
    faults = [dict(kind="errno", call="f.read", nth=rng.randint(1, 500),
                   times=1, errno="EIO")] if rng.random() < 0.3 else []
    return dict(cfg=dict(files=files), procs=[dict(ops=ops, faults=faults)],
                max_steps=60000, sched=gen_sched(rng, 40))


def gen(rng, i, tier):
    if i % 150 == 75:
        return many(rng, i)
    nfiles = rng.choice((1, 1, 2, 3))
    files = [dict(name=f"/simfs/d{rng.randrange(2)}/{i}_{rng.getrandbits(40)}"
                  f"_{j}.lbl", form=rng.choice(("str", "path")),
                  fill=rng.choice((0, 0, 3, 1000, 8000)),
                  odd=rng.randrange(99),
                  bad=rng.choice((None, None, None, 0, 1, 2)),
                  end=rng.choice(("end", "null", "none")),
                  there=rng.random() < 0.8) for j in range(nfiles)]
    if rng.random() < 0.5:      # names alike but for the folder, case or end
        for f, tail in zip(files, rng.sample((
                "d0/{}.lbl", "d1/{}.lbl", "d0/{}.LBL", "d1/{}.lbl2"), nfiles)):
            f["name"] = "/simfs/" + tail.format(f"{i}_same")
    threads = rng.choice((1, 1, 1, 2, 3))
    procs = []
    for t in range(threads):
        ops = []
        for _ in range(rng.choice((2, 4, 6, 10))):
            f = rng.randrange(nfiles)
            r = rng.random()
            if r < 0.22:
                ops.append(dict(op="load", f=f,
                                n=rng.choice((None, None, 20, 60))))
            elif r < 0.34:
                ops.append(dict(op="trim", f=f, strict=rng.random() < 0.4))
            elif r < 0.5:
                ops.append(dict(op="from", f=f,
                                pat=rng.choice(sorted(PATTERNS))))
            elif r < 0.62:
                ops.append(dict(op="patterns", f=f, pats=rng.sample(
                    sorted(PATTERNS), rng.randint(0, 4)),
                    extra=rng.choice((None, None, "add", "over", "raise")),
                    loader=rng.choice((None, None, "trim"))))
            elif r < 0.7:
                ops.append(dict(op="bulk", fs=[rng.randrange(nfiles)
                                for _ in range(rng.choice((0, 1, 2, 4)))],
                                lazy=rng.random() < 0.4))
            elif r < 0.75:
                ops.append(dict(op="ls", d=rng.randrange(2)))
            elif r < 0.78:
                ops.append(dict(op="exists", f=f))
            elif r < 0.92:
                ops.append(dict(op="put", f=f))
            else:
                ops.append(dict(op="rm", f=f))
        faults = []
        if rng.random() < 0.65:
            for _ in range(rng.choice((1, 2, 4))):
                call = rng.choice(("f.open", "f.read", "f.read", "f.list"))
                nth = rng.choice((1, 1, 2, 3, 5, 8))
                if rng.random() < 0.25:
                    faults.append(dict(kind="interrupt", call=call, nth=nth))
                else:
                    faults.append(dict(
                        kind="errno", call=call, nth=nth,
                        times=rng.choice((1, 1, 2)),
                        errno=rng.choice(("EIO", "ESTALE", "EACCES",
                                          "EMFILE"))))
        procs.append(dict(ops=ops, faults=faults))
    return dict(cfg=dict(files=files), procs=procs, max_steps=60000,
                sched=gen_sched(rng, 40 * threads))


CODE = {}


def fresh():
    """the module as a new process sees it: with empty caches"""
    path = LIB + "scrape.py"
    if path not in CODE:
        with open(path, "rb") as f:
            CODE[path] = compile(f.read(), path, "exec")
    m = types.ModuleType("dustgoggles.scrape")
    m.__file__ = path
    exec(CODE[path], m.__dict__)
    return m


class File:
    def __init__(self, spec):
        self.spec = spec
        self.versions = [(0, 0 if spec["there"] else None)]  # since stamp
        self.n = 0

    def at(self, a, b):
        """versions between two moments (None: not there)"""
        out = []
        for j, (s, v) in enumerate(self.versions):
            end = self.versions[j + 1][0] if j + 1 < len(self.versions) \
                else b + 1
            if s <= b and end >= a:
                out.append(v)
        return out


def scraped(text, pat):
    if not isinstance(text, str):
        return text
    m = re.search(PATTERNS[pat], text)
    if m is None:
        return None
    try:
        return ast.literal_eval(m.group(1))
    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
        return m.group(1)


def cut(text, n):
    try:
        return raw_of(text)[:n].decode()
    except UnicodeDecodeError:
        return UnicodeDecodeError


def trimmed(text, strict):
    for end in ("END\r\n", "\0\0\0"):
        if end in text:
            return cut(text, len(raw_of(text[:text.index(end) + len(end)])))
    return ValueError if strict else cut(text, len(raw_of(text)))


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    module = fresh()
    with SimRun(plan, chooser) as run:
        run.w.fs = fs = FS(run.k)
        fs.dirs |= {"/simfs/d0", "/simfs/d1"}
        files = [File(f) for f in cfg["files"]]
        for f in files:
            if f.spec["there"]:
                fs.put(f.spec["name"], raw_of(text_of(f.spec, 0)))
        st = State(run, fs, module, files, len(plan["procs"]) == 1)

        def body(spec):
            def fn(p):
                try:
                    for op in spec["ops"]:
                        st.do(op)
                except Violation as v:
                    run.fail(v.cls, v.msg)
            return fn

        space = None
        for spec in plan["procs"]:
            space = run.k.spawn(body(spec), faults=spec["faults"],
                                space=space).space
        run.go()
        run.require_end("scraping")
        run.out.digest_extra = repr(st.log)
    return run.out


class State:
    def __init__(self, run, fs, module, files, alone):
        self.run, self.fs, self.m, self.files = run, fs, module, files
        self.alone = alone
        self.tries = {}             # cache key -> attempts
        self.log = []

    def arg(self, f):
        import pathlib
        n = f.spec["name"]
        return n if f.spec["form"] == "str" else pathlib.Path(n)

    # what a cached call on (kind, file, ...) may show ---------------------
    def before(self, key):
        return dict(key=key, inv=self.run.k.stamp(),
                    ev=len(self.run.k.events))

    def do(self, op):
        k, fs = self.run.k, self.fs
        kind = op["op"]
        if kind in ("put", "rm"):
            f = self.files[op["f"]]
            k.mark(kind)
            if kind == "put":
                f.n += 1
                fs.put(f.spec["name"], raw_of(text_of(f.spec, f.n)))
                f.versions.append((k.stamp(), f.n))
            else:
                fs.files.pop(f.spec["name"], None)
                f.versions.append((k.stamp(), None))
            k.changed()
            return
        if kind == "ls":
            return self.listing(op)
        if kind == "exists":
            return self.exists(op)
        if kind == "bulk":
            return self.bulk(op)
        f = self.files[op["f"]]
        if kind == "load":
            fn = self.m.cached_label_loader
            args = (self.arg(f),) if op["n"] is None else (self.arg(f),
                                                           op["n"])
            self.attempt(op, ("load", op["f"], op["n"] or DEFAULT,
                              op["n"] is None), f, lambda: fn(*args),
                         lambda t: cut(t, op["n"] or DEFAULT))
        elif kind == "trim":
            args = (self.arg(f), 400000, True) if op["strict"] else \
                (self.arg(f),)
            self.attempt(op, ("trim", op["f"], op["strict"]), f,
                         lambda: self.m.cached_label_trimmer(*args),
                         lambda t: trimmed(t, op["strict"]))
        elif kind == "from":
            self.attempt(op, ("load", op["f"], DEFAULT, True), f,
                         lambda: self.m.scrape_from_file(
                             self.arg(f), PATTERNS[op["pat"]]),
                         lambda t: scraped(cut(t, DEFAULT), op["pat"]))
        else:
            self.patterns(op, f)

    def extra(self, op, f, want, seen=None):
        def fn(label, text):
            if seen is not None:
                seen.append((label, text))
            if op["extra"] == "raise":
                raise LookupError("no such field")
            return {"more": 1} if op["extra"] == "add" else {
                p: "instead" for p in op["pats"][:1]}
        return fn

    def patterns(self, op, f):
        trim = op["loader"] == "trim"
        key = ("trim", op["f"], False) if trim else \
            ("load", op["f"], DEFAULT, True)
        kw = dict(label_loader=self.m.cached_label_trimmer) if trim else {}
        sup = None if op["extra"] is None else self.extra(op, f, None)

        def want(t):
            t = trimmed(t, False) if trim else cut(t, DEFAULT)
            if not isinstance(t, str):
                return t
            out = {p: scraped(t, p) for p in op["pats"]}
            if op["extra"] == "raise":
                return LookupError
            if sup is not None:
                out |= sup(None, None)
            return out
        self.attempt(op, key, f, lambda: self.m.scrape_patterns(
            self.arg(f), {p: PATTERNS[p] for p in op["pats"]}, sup, **kw),
            want)

    def attempt(self, op, key, f, fn, want):
        """one cached call, judged"""
        k = self.run.k
        tries = self.tries.setdefault(key, [])
        t = dict(inv=k.stamp(), ret=None, may=[], ok=False)
        tries.append(t)
        have = [x for x in tries if x["ok"] and x["ret"] < t["inv"]]
        faults = len(k.fault_log)
        ev, pid = len(k.events), k.current.pid
        value, error = None, None
        try:
            value = fn()
        except (SimKill, HarnessError, Violation):
            raise
        except (Exception, KeyboardInterrupt) as ex:
            error = ex
            ex.__traceback__ = None
        ret = k.stamp()
        used = [e for e in k.events[ev:] if e[0] == pid and
                e[1].startswith("f.") and e[2] == f.spec["name"]]
        hit = [x[0] for x in k.fault_log[faults:] if x[1] == pid]
        what = f"{op} (version now {f.versions[-1][1]})"
        self.log.append((pid, str(op), short(value), type(error).__name__))
        if have:                    # it has been read before
            if used:
                raise Violation("read-again", f"{what} has been read, but is "
                                f"accessed again: {used[:3]}")
            first = min(x["ret"] for x in have)
            versions = sorted({y for x in tries if x["ok"] and
                               x["inv"] < first for y in x["may"]} |
                              {y for x in tries if x["ret"] is None and
                               x is not t for y in f.at(x["inv"], ret)
                               if y is not None})
            k.probe("cached")
        elif hit:
            good = KeyboardInterrupt if "interrupt" in hit else OSError
            k.probe("load_failed")
            if not isinstance(error, good):
                raise Violation("error-lost", f"{what} was hit by {hit} but "
                                f"gave {short(value)}, {error!r}")
            t["ret"], self.last = ret, error
            return False
        else:
            start = min([t["inv"]] + [x["inv"] for x in tries
                                      if x["ret"] is None or
                                      x["ret"] > t["inv"]])
            versions = f.at(start, ret)
        found = []
        for v in versions:
            w = FileNotFoundError if v is None else want(
                text_of(f.spec, v))
            if isinstance(w, type):
                good = type(error) is w
            else:
                good = error is None and repr(w) == repr(value)
            if good:
                found.append(v)
        if not found:
            v = versions[-1]
            raise Violation("wrong-result", f"{what}: {short(value, 300)} {error!r};"
                            f" versions it may show {versions}; that would "
                            f"be {short(want(text_of(f.spec, v)), 300) if v is not None else 'missing'}")
        self.last = error
        if found[-1] is None:       # not there (any more)
            t["ret"] = ret
            return False
        t["may"] = [v for v in found if v is not None]
        t["ok"] = not isinstance(error, ValueError)
        t["ret"] = ret
        return error is None

    def bulk(self, op):
        """every file of the list, one after the other"""
        k = self.run.k
        label = {self.arg(f): f for f in self.files}
        done, failed = [], []

        def scraper(a):
            f = label[a]
            sub = dict(op="patterns", f=self.files.index(f), loader=None,
                       pats=["version", "word"], extra=None)
            box = []

            def fn():
                box.append(self.m.scrape_patterns(
                    a, {p: PATTERNS[p] for p in sub["pats"]}))
                return box[-1]
            good = self.attempt(
                sub, ("load", sub["f"], DEFAULT, True), f, fn,
                lambda t: cut(t, DEFAULT) if cut(
                    t, DEFAULT) is UnicodeDecodeError else {
                    p: scraped(cut(t, DEFAULT), p) for p in sub["pats"]})
            if not good:
                failed.append(self.last)
                raise failed[-1]
            done.append(box[-1])
            return dict(box[-1])
        args = [self.arg(self.files[j]) for j in op["fs"]]
        value, error = None, None
        try:
            value = self.m.bulk_scrape_metadata(
                (a for a in args) if op["lazy"] else args, scraper)
        except (SimKill, HarnessError, Violation):
            raise
        except (Exception, KeyboardInterrupt) as ex:
            error = ex
            ex.__traceback__ = None
            if not failed or error is not failed[0]:
                raise Violation("bulk", f"scraping {len(args)} files raised "
                                f"{error!r}; failed: {failed}")
        if error is None and (failed or value != done or len(done) != len(args)):
            raise Violation("bulk", f"scraping {len(args)} files gave "
                            f"{short(value, 300)}, should be {short(done, 300)}")
        if error is not None and len(done) >= len(args):
            raise Violation("bulk", f"{error!r} after every file")

    def listing(self, op):
        k, fs = self.run.k, self.fs
        d = f"/simfs/d{op['d']}"
        key = ("ls", d)
        tries = self.tries.setdefault(key, [])
        inv = k.stamp()
        have = [x for x in tries if x[1] < inv]
        faults, ev, pid = len(k.fault_log), len(k.events), k.current.pid
        value, error = None, None
        try:
            value = self.m.cached_ls(d)
        except (OSError, KeyboardInterrupt) as ex:
            error = ex
        used = [e for e in k.events[ev:] if e[0] == pid and e[1] == "f.list"]
        hit = [x for x in k.fault_log[faults:] if x[1] == pid]
        self.log.append((pid, "ls", short(value), type(error).__name__))
        if have and (used or error is not None):
            raise Violation("read-again", f"{d} was listed before, but {used}"
                            f" {error!r}")
        if hit:
            if error is None:
                raise Violation("error-lost", f"listing {d}, hit by {hit}, "
                                f"gave {value}")
            return
        if error is not None:
            raise Violation("wrong-result", f"listing {d} raised {error!r}")
        if have and not any(value == x[0] for x in tries):
            raise Violation("wrong-result", f"{d} was listed as {have[0][0]}, "
                            f"now as {value}")
        if not have and self.alone and sorted(value) != sorted(
                p[len(d) + 1:] for p in fs.files if p.startswith(d + "/")):
            raise Violation("wrong-result", f"{d} listed as {value}")
        tries.append((list(value), k.stamp()))

    def exists(self, op):
        k = self.run.k
        f = self.files[op["f"]]
        tries = self.tries.setdefault(("exists", op["f"]), [])
        inv = k.stamp()
        have = [x for x in tries if x[1] < inv]
        ev, pid = len(k.events), k.current.pid
        value = self.m.cached_exists(self.arg(f))
        used = [e for e in k.events[ev:] if e[0] == pid]
        ret = k.stamp()
        if have:
            if used or value not in [x[0] for x in tries]:
                raise Violation("read-again", f"existence of {f.spec['name']} "
                                f"was {have[0][0]}; now {value}, {used}")
        elif value not in [v is not None for v in f.at(inv, ret)]:
            raise Violation("wrong-result", f"existence of {f.spec['name']} "
                            f"given as {value}")
        tries.append((value, ret))
