"""C21 optional calls of dynamic functions."""
import builtins
import copy

import dustgoggles.dynamic  # noqa: not while a run is being traced
import dustgoggles.func  # noqa

from sim.base import LIB, SimRun, Violation, gen_sched, short
from sim.kernel import HarnessError, SimKill

ID = "C21"
RULE = ("each run: a dynamic function (or a function made optional) is "
        "called, loaded, reloaded and unloaded again and again while chosen "
        "calls raise or are interrupted, an interrupt arrives at some line "
        "or instruction of the library, or 2-4 threads call it at once, "
        "changing at any line or instruction; results, errors, reports and "
        "flags are compared with a reference model")
REAL = ["dustgoggles.dynamic", "dustgoggles.func.optionalize"]
STUB = ["thread scheduling (one thread at a time, by seed)",
        "the functions called"]
ASSUMPTIONS = ["no unloading while another thread is calling"]
QUICK, THOROUGH = 24000, 700000


class Base(BaseException):
    pass


class Custom(Exception):
    def __init__(self, a, b=None, *, c=0):
        super().__init__(a)


class Broken(Exception):
    """cannot be printed"""

    def __str__(self):
        raise LookupError("no text")

    __repr__ = __str__


class Group(ExceptionGroup):
    pass


ORDINARY = ("ValueError", "TypeError", "KeyError", "OSError", "StopIteration",
            "RuntimeError", "MemoryError", "RecursionError", "AssertionError",
            "Custom", "Broken", "Group", "UnicodeDecodeError", "Exception",
            "SyntaxError", "Empty")
HARD = ("KeyboardInterrupt", "KeyboardInterrupt", "SystemExit",
        "GeneratorExit", "Base")
VALUES = (None, 0, "", [], "value", (1, 2), {"exception": 3}, False,
          ValueError("just a value"), [None])


def make(name, text):
    if name == "Group":
        return Group(text, [ValueError(1)])
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"x", 0, 1, text)
    if name == "Empty":
        return ValueError()
    return {"Custom": Custom, "Broken": Broken, "Base": Base}.get(
        name, getattr(builtins, name, None))(text)


GOOD = ("def {name}(hit, ident, *args, **kwargs):\n"
        "    got = hit(ident)\n"
        "    return got, args, kwargs{tail}\n")
GLOBAL = ("def {name}(hit, ident, *args, **kwargs):\n"
          "    return helper(hit, ident), args, kwargs{tail}\n")
NESTED = ("def {name}(hit, ident, *args, **kwargs):\n"
          "    def inner():\n"
          "        return hit(ident)\n"
          "    got = [x() for x in (inner,)][0]\n"
          "    return got, args, kwargs{tail}\n")
BAD = ("def {name}(:\n    pass\n", "x = 1\n", "def {name}()\n", "\0", "")


def helper(hit, ident):
    return hit(ident)


def plain(hit, ident, *args, **kwargs):
    got = hit(ident)
    return got, args, kwargs


def helped(hit, ident, *args, **kwargs):
    return helper(hit, ident), args, kwargs


class Callee:
    def __call__(self, hit, ident, *args, **kwargs):
        return helper(hit, ident), args, kwargs


FUNCTIONS = {"plain": plain, "helped": helped, "object": Callee()}


def gen_call(rng, n):
    r = rng.random()
    op = dict(op="call", id=n, opt=rng.choice((None, None, None, True,
                                               False)))
    if r < 0.45:
        op.update(do="ok", value=rng.randrange(len(VALUES)))
    elif r < 0.85:
        op.update(do="raise", exc=rng.choice(ORDINARY))
    elif r < 0.95:
        op.update(do="hard", exc=rng.choice(HARD))
    else:
        op.update(do="args")
    return op


def gen(rng, i, tier):
    mode = rng.choice(("seq", "seq", "line", "line", "threads", "threads"))
    api = rng.choice(("dynamic", "dynamic", "dynamic", "function",
                      "dontcare", "optionalize"))
    fine = mode != "seq" and rng.random() < 0.35
    n = 0
    procs = []
    big = i % 250 == 99         # very many calls
    for t in range(rng.choice((2, 2, 3, 4)) if mode == "threads" else 1):
        ops = []
        for _ in range(150 if big and mode != "line" else
                       rng.choice((1, 2, 3)) if mode == "threads" else
                       rng.choice((2, 4, 7, 12))):
            n += 1
            r = rng.random()
            if r < (0.99 if big else 0.72) or api in ("dontcare", "optionalize"):
                ops.append(gen_call(rng, n))
            elif mode == "threads":
                ops.append(dict(op="reload"))
            else:
                ops.append(dict(op=rng.choice((
                    "load", "reload", "unload", "unload", "compile",
                    "switch", "source", "source"))))
                if ops[-1]["op"] == "source":
                    ops[-1].update(id=n, bad=None if rng.random() < 0.75
                                   else rng.choice(BAD))
        procs.append(dict(ops=ops, faults=[]))
    if mode == "line":
        procs[0]["faults"] = [dict(
            kind="interrupt", call="line",
            nth=rng.randint(1, 900 if fine else 130))]
    cfg = dict(mode=mode, api=api, fine=fine,
               optional=rng.random() < 0.75,
               lazy=rng.random() < (0.6 if mode == "threads" else 0.4),
               load_on_call=mode == "threads" or rng.random() < 0.85,
               source=rng.choice((GOOD, NESTED, GLOBAL)),
               function=rng.choice(("plain", "helped", "helped")),
               bad=rng.choice(BAD) if mode == "seq" and rng.random() < 0.12
               else None)
    if api != "dynamic" and rng.random() < 0.2:
        # has no source that could be loaded again
        cfg["function"] = "object"
        for p in procs:
            n += 1
            p["ops"] = [o for o in p["ops"] if o["op"] in (
                "call", "switch")] or [gen_call(rng, n)]
    return dict(cfg=cfg, procs=procs, max_steps=2000000 if big else 100000,
                sched=gen_sched(rng, (700 if fine else 90) * len(procs)))


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    trace = cfg["mode"] != "seq"
    with SimRun(plan, chooser, line_prefix=LIB if trace else None) as run:
        run.k.trace_opcodes = cfg["fine"]
        st = State(run, cfg)
        if cfg["mode"] == "threads":
            try:
                st.make()
            except Violation as v:
                run.fail(v.cls, v.msg)
                return run.out

        def body(spec):
            def fn(p):
                try:
                    if cfg["mode"] != "threads":
                        st.make()
                    for op in spec["ops"]:
                        st.do(op)
                except Violation as v:
                    run.fail(v.cls, v.msg)
            return fn

        space = None
        for spec in plan["procs"]:
            space = run.k.spawn(body(spec), faults=spec["faults"],
                                space=space).space
        run.go()
        run.require_end("calling")
        if cfg["mode"] == "threads":
            st.final()
        run.out.digest_extra = repr(st.log)
    return run.out


class State:
    def __init__(self, run, cfg):
        self.run, self.cfg, self.log = run, cfg, []
        self.plans, self.raised = {}, {}
        self.d, self.target = None, []
        self.reports = []           # what the error log should hold
        self.failed = False
        self.source = None
        # what calls may return besides, from the sources that may be loaded
        self.tail, self.tails = None, {None}
        self.past = {None}
        self.broken = False         # the source does not compile

    def hit(self, ident):
        op = self.plans[ident]
        self.run.k.point("call", ident)
        if op["do"] == "ok":
            return VALUES[op["value"]]
        ex = self.raised[ident] = make(op["exc"], f"call {ident}.")
        self.run.k.count_fault("raise_" + op["exc"])
        raise ex

    def make(self):
        _, error, hit = self._make()
        if self.d is None and not hit:
            raise Violation("make", f"making it gave {error!r}: {self.cfg}")

    def _make(self):
        from dustgoggles.dynamic import Dynamic, dontcare
        from dustgoggles.func import optionalize
        cfg = self.cfg
        api, fun = cfg["api"], FUNCTIONS[cfg["function"]]
        kw = dict(optional=cfg["optional"], lazy=cfg["lazy"],
                  load_on_call=cfg["load_on_call"])
        if api == "dynamic":
            self.source = cfg["source"].format(name="fun", tail="")
            if cfg["bad"] is not None:
                self.source = cfg["bad"].format(name="fun")
                self.broken, kw["lazy"] = True, True
            return self.guard(lambda: setattr(self, "d", Dynamic(
                self.source, {"__builtins__": builtins, "helper": helper}, **kw)))
        elif api == "function":
            return self.guard(lambda: setattr(self, "d", Dynamic.from_function(
                fun, **kw)))
        elif api == "dontcare":
            return self.guard(lambda: setattr(self, "d", dontcare(
                fun, self.target)))
        else:
            return self.guard(lambda: setattr(self, "d", optionalize(fun)))

    def interrupts(self):
        return self.run.k.fault_counts.get("interrupt", 0)

    def guard(self, fn):
        """value, error, whether the simulator interrupted it"""
        before = self.interrupts()
        value, error = None, None
        try:
            value = fn()
        except (SimKill, HarnessError, Violation):
            raise
        except BaseException as ex:
            error = ex
        return value, error, self.interrupts() > before

    @property
    def errors(self):
        return self.d.errors if self.managed() else self.target

    @property
    def flag(self):
        return getattr(self.d, "call_fail", None)

    def managed(self):
        return self.cfg["api"] in ("dynamic", "function")

    def do(self, op):
        if self.d is None:
            return self.make()      # making it was interrupted
        if op["op"] == "call":
            self.call(op)
        else:
            self.manage(op)
        if self.cfg["mode"] != "threads":
            self.check_log(op)

    # ---------------------------------------------------------------- calls --
    def call(self, op):
        d, cfg = self.d, self.cfg
        n = op["id"]
        self.plans[n] = op
        args = (self.hit, n, 5) if op["do"] != "args" else ()
        kw = {"z": 1} if op["do"] != "args" else {}
        optional = True
        if self.managed():
            optional = d.optional if op["opt"] is None else op["opt"]
            if op["opt"] is not None:
                kw["_optional"] = op["opt"]
        loaded = not self.managed() or d.func is not None
        if not loaded and cfg["load_on_call"] and not self.broken:
            self.tails = {self.tail}
        before = len(self.errors) if cfg["mode"] != "threads" else 0
        value, error, hit = self.guard(lambda: d(*args, **kw))
        kw.pop("_optional", None)
        what = f"call {op}, optional={optional}, {cfg}"
        self.log.append((n, short(value), type(error).__name__))
        if hit:
            if not isinstance(error, KeyboardInterrupt):
                raise Violation("interrupt-lost", f"{what}: interrupted, but "
                                f"gave {short(value)}, {error!r}")
            self.resync(before, n)
            return
        if self.managed() and not loaded and not cfg["load_on_call"]:
            from dustgoggles.dynamic import UnreadyError
            if not isinstance(error, UnreadyError):
                raise Violation("unready", f"{what} on an unloaded function "
                                f"gave {short(value)}, {error!r}")
            return
        if self.broken and not loaded:
            self.reports.append("compile")
            if d.func is not None:
                # there was code of an earlier source
                self.tails = set(self.past)
            elif value is not None or error is None or isinstance(error, (
                    KeyboardInterrupt, SystemExit)):
                raise Violation("bad-source", f"{what}: {short(value)}, "
                                f"{error!r}")
            else:
                return
        ex = self.raised.get(n)
        if op["do"] == "ok":
            if error is not None:
                raise Violation("raised", f"{what} raised {error!r}")
            want = (VALUES[op["value"]], (5,), {"z": 1})
            if repr(value) not in [repr(want if t is None else (*want, t))
                                   for t in self.tails]:
                raise Violation("value", f"{what} gave {short(value)}")
            return
        self.run.k.probe("failing_call")
        if op["do"] == "hard" or not optional:
            if op["do"] == "args":
                good = isinstance(error, TypeError)
            else:
                good = error is not None and error is ex
            if not good:
                raise Violation("not-raised", f"{what} gave {short(value)}, "
                                f"{type(error).__name__} instead of raising "
                                f"{type(ex).__name__}")
            return
        if error is not None:
            raise Violation("raised", f"{what} raised {type(error).__name__}")
        if value is not None:
            raise Violation("value", f"{what} failed but gave {short(value)}")
        self.failed = True
        self.reports.append(n)
        if self.managed() and self.flag is not True:
            raise Violation("not-marked", f"{what} failed but call_fail is "
                            f"{self.flag}")

    def resync(self, before, n):
        """a call was cut short: it may have left a report"""
        more = len(self.errors) - before
        if more == 1 and self.broken and self.errors[-1].get(
                "category") == "compile":
            self.reports.append("compile")
            return
        if more not in (0, 1) or more and n not in self.raised and \
                self.plans[n]["do"] != "args":
            raise Violation("log", f"interrupted call {n} left {more} "
                            f"reports")
        if more:
            self.reports.append(n)
        if self.managed():
            # with a report, the flag is set now or by a later call
            if not more:
                self.failed = bool(self.flag)
            elif not self.failed:
                self.failed = None
            if self.flag and not self.reports:
                raise Violation("marked", f"interrupted call {n} left "
                                f"call_fail set and no report")

    def is_report(self, rep, n):
        if n == "compile":
            return rep.get("category") == "compile"
        op = self.plans[n]
        text = str(rep.get("exception"))
        name = "TypeError" if op["do"] == "args" else \
            "ValueError" if op["exc"] == "Empty" else op["exc"]
        if name not in text or rep.get("category") != "call":
            return False
        if op["do"] == "raise" and op["exc"] not in ("Broken", "Empty") and \
                f"call {n}." not in text:
            return False
        return callable(rep.get("func"))

    def check_log(self, op):
        if self.cfg["api"] == "optionalize":
            return
        errors = list(self.errors)
        if len(errors) != len(self.reports) or not all(
                map(self.is_report, errors, self.reports)):
            raise Violation("log", f"after {op}: reports "
                            f"{[short(e.get('exception'), 50) for e in errors]}, should be of "
                            f"{[self.plans.get(n, n) for n in self.reports]}")
        if self.managed() and self.failed is not None and \
                bool(self.flag) != self.failed:
            raise Violation("flag", f"after {op}: call_fail is "
                            f"{self.flag}, should be {self.failed}")

    def final(self):
        """threads: every failing call reported once, in whatever order"""
        if self.cfg["api"] == "optionalize":
            return
        errors = list(self.errors)
        left = list(self.reports)
        # most particular first: those whose text names the call
        for rep in errors:
            for n in sorted(left, key=lambda n: self.plans[n].get("exc") in (
                    "Broken", "Empty", None)):
                if self.is_report(rep, n):
                    left.remove(n)
                    break
            else:
                raise Violation("log", f"report {short(rep.get('exception'))} "
                                f"of no failing call; {len(errors)} reports "
                                f"for {len(self.reports)} failures")
        if left:
            raise Violation("log", f"no report of calls "
                            f"{[self.plans[n] for n in left]}")
        if self.managed() and bool(self.flag) != self.failed:
            raise Violation("flag", f"call_fail is {self.flag}, "
                            f"should be {self.failed}")

    # ------------------------------------------------------------ management --
    def manage(self, op):
        from dustgoggles.dynamic import AlreadyLoadedError
        d, kind = self.d, op["op"]
        if kind == "switch":
            d.optional = not d.optional
            return
        if kind == "source":
            if self.cfg["api"] == "dynamic":
                self.tail, bad = op["id"], op["bad"]
                self.past.add(self.tail)
                self.broken = bad is not None
                self.source = bad.format(name="other") if self.broken else \
                    self.cfg["source"].format(name="other",
                                              tail=f", {self.tail}")
                d.source = self.source
            return
        loaded = d.func is not None
        before = len(d.errors)
        fn = {"load": d.load, "reload": lambda: d.load(True),
              "unload": d.unload, "compile": d.compile_source}[kind]
        value, error, hit = self.guard(fn)
        what = f"{kind}, {'' if loaded else 'not '}loaded, {self.cfg}"
        self.log.append((kind, type(error).__name__))
        if hit:
            if not isinstance(error, KeyboardInterrupt):
                raise Violation("interrupt-lost", f"{what}: {error!r}")
            self.tails.add(self.tail)
            self.resync_load(before)
            if kind == "unload":
                if not d.errors:
                    self.reports = []
                self.failed = bool(self.flag) if not d.errors else None
            return
        if kind == "unload":
            if error is not None:
                raise Violation("unload", f"{what} raised {error!r}")
            if d.func is not None or d.errors or self.flag:
                raise Violation("unload", f"{what} leaves {d.func}, "
                                f"{d.errors}, {self.flag}")
            self.reports, self.failed = [], False
            return
        if kind == "load" and loaded:
            if not isinstance(error, AlreadyLoadedError):
                raise Violation("loaded-twice", f"{what}: {error!r}")
            return
        if self.broken:
            if len(d.errors) - before != 1 or not d.compile_fail:
                raise Violation("bad-source", f"{what}: {len(d.errors) - before}"
                                f" reports, compile_fail {d.compile_fail}")
            self.reports.append("compile")
            self.tails |= self.past
            return
        if error is not None:
            raise Violation("load", f"{what} raised {error!r}")
        if kind != "compile":
            if d.func is None:
                raise Violation("load", f"{what} leaves it unloaded")
            self.tails = {self.tail}

    def resync_load(self, before):
        """a load cut short may have left its report"""
        more = len(self.d.errors) - before
        if more == 1 and self.broken:
            self.reports.append("compile")


def simpler(plan):
    for key, v in (("fine", False), ("lazy", False)):
        if plan["cfg"][key] != v:
            q = copy.deepcopy(plan)
            q["cfg"][key] = v
            yield q
