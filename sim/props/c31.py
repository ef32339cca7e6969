"""C31 a dynamic function is loaded, and looks like it, or is not."""
import builtins
import inspect
import sys

import dustgoggles.dynamic  # noqa: not while a run is being traced

from sim.base import LIB, SimRun, Violation, gen_sched, short
from sim.kernel import HarnessError, SimKill

ID = "C31"
RULE = ("each run: a dynamic function is made, loaded, called, unloaded and "
        "given other sources, good and bad, again and again, while calls "
        "raise and interrupts arrive at any line or instruction of the "
        "library; after every operation what it is, what it looks like and "
        "what it reports is compared with a reference model of its states")
REAL = ["dustgoggles.dynamic", "dustgoggles.func.optionalize"]
STUB = ["the functions called", "when interrupts arrive (by seed)"]
ASSUMPTIONS = ["one thread", "name and signature are unspecified from an "
               "interrupted load or unload to the next completed one"]
QUICK, THOROUGH = 24000, 700000

ARGS = ("a", "b", "*args", "a, *args", "a, /", "a, **kw", "*a, **out")
# (arguments, how to call with them)
DEFAULTS = ("b=2", "*, key=None", "a=1, /, **kw", "hit=None, out=()")
BODIES = ("    return {value!r}\n",
          "    def inner(x):\n        return x\n    return inner({value!r})\n",
          "    return [v for v in ({value!r},)][0]\n",
          "    return (lambda: {value!r})()\n")
# leaves a trace in the globals the object was given
MARK = "    global mark_\n    mark_ = {value!r}\n    return mark_\n"
RAISES = ("    raise {exc}('at {n}.')\n",
          "    x = 1\n    y = 2\n    raise {exc}('at {n}.')\n",
          "    def inner():\n        x = 1\n        raise {exc}('at {n}.')\n"
          "    return inner()\n",
          "    for x in range(2):\n        if x:\n"
          "            raise {exc}('at {n}.')\n",
          "    try:\n        raise {exc}('at {n}.')\n"
          "    finally:\n        x = 1\n",
          "    def inner():\n        try:\n"
          "            raise {exc}('at {n}.')\n"
          "        finally:\n            x = 1\n"
          "    try:\n        return inner()\n"
          "    except ArithmeticError:\n        return None\n",
          "    return [x.missing\n            for x in ()] or max(\n"
          "        (_ for _ in ()).throw(\n"
          "            {exc}('at {n}.')), 1)\n")
# how deep each of RAISES goes: (name, line) from the outermost on
DEPTH = (((None, 2),), ((None, 4),), ((None, 5), ("inner", 4)), ((None, 4),),
         ((None, 3),), ((None, 8), ("inner", 4)), ((None, 4), ("genexpr", 4)))
EXCS = ("ValueError", "KeyError", "OSError", "RuntimeError", "MemoryError",
        "StopIteration", "LookupError")
# (source, name of the error compiling it gives)
BAD = (("def f(:\n    pass\n", "SyntaxError"), ("def f()\n", "SyntaxError"),
       ("def f():\npass\n", "IndentationError"), ("  def f(): 1\n",
                                                   "IndentationError"),
       ("def f():\n\tif 1:\n        pass\n", "TabError"),
       ("return 1\n", "SyntaxError"), ("def f(a, a): pass\n", "SyntaxError"))
NAMES = ("f", "other", "_x", "lambda_", "f")


def gen_defaults(rng):
    args = rng.choice(DEFAULTS)
    return dict(text=f"def f({args}):\n    return 5\n", args=args)


def gen_source(rng, n, marks=False):
    """source, and what is known about it"""
    if rng.random() < 0.2:
        text, error = rng.choice(BAD)
        return dict(text=text, bad=error)
    name, args = rng.choice(NAMES), rng.choice(ARGS)
    head = f"def {name}({args}):\n"
    if rng.random() < 0.4:
        b, exc = rng.randrange(len(RAISES)), rng.choice(EXCS)
        return dict(text=head + RAISES[b].format(exc=exc, n=n), bad=None,
                    name=name, args=args, exc=exc, at=f"at {n}.", body=b)
    value = rng.choice((n, None, f"v{n}", [n], {"n": n}))
    mark = marks and rng.random() < 0.4
    body = MARK if mark else rng.choice(BODIES)
    return dict(text=head + body.format(value=value), bad=None, mark=mark,
                name=name, args=args, exc=None, value=value)


def gen(rng, i, tier):
    if rng.random() < 0.01:
        return dict(cfg=dict(mode="seq", defaults=gen_defaults(rng)),
                    procs=[dict(ops=[], faults=[])], max_steps=100000,
                    sched=gen_sched(rng, 10))
    mode = rng.choice(("seq", "line", "line", "fine"))
    plain = rng.random() < 0.3
    ops = []
    for n in range(rng.choice((3, 6, 10, 16))):
        op = rng.choice(("call", "call", "call", "load", "reload", "unload",
                         "source", "show"))
        ops.append(dict(op=op, n=n))
        if op == "source":
            ops[-1]["source"] = gen_source(rng, n + 1, not plain)
        if op == "call":
            ops[-1]["opt"] = rng.choice((None, None, True, False))
    faults = [dict(kind="interrupt", call="line", nth=rng.randint(
        1, 1200 if mode == "fine" else 150))
        for _ in range(rng.choice((1, 1, 2)) if mode != "seq" else 0)]
    first = gen_source(rng, 0, not plain)
    return dict(cfg=dict(mode=mode, source=first,
                         optional=rng.random() < 0.6,
                         lazy=rng.random() < 0.4,
                         load_on_call=rng.random() < 0.7,
                         plain=plain, empty=rng.random() < 0.4),
                procs=[dict(ops=ops, faults=faults)], max_steps=100000,
                sched=gen_sched(rng, 10))


def execute(plan, chooser=None):
    cfg = plan["cfg"]
    with SimRun(plan, chooser,
                line_prefix=None if cfg["mode"] == "seq" else LIB) as run:
        run.k.trace_opcodes = cfg["mode"] == "fine"
        st = None if cfg.get("defaults") else State(run, cfg)

        def body(spec):
            def fn(p):
                try:
                    if cfg.get("defaults"):
                        return defaults(cfg["defaults"])
                    for op in [dict(op="make", n=-1), *spec["ops"]]:
                        st.do(op)
                except Violation as v:
                    run.fail(v.cls, v.msg)
            return fn

        for spec in plan["procs"]:
            run.k.spawn(body(spec), faults=spec["faults"])
        run.go()
        run.require_end("calling")
        run.out.digest_extra = repr(st and st.log)
    return run.out


def defaults(src):
    """the default values of arguments are part of what a source defines"""
    from dustgoggles.dynamic import Dynamic
    d = Dynamic(src["text"])
    try:
        got = d()
    except TypeError as ex:
        if "missing" in str(ex) and "required" in str(ex):
            raise Violation("defaults", f"{src['text']!r} can not be called "
                            f"without arguments: {ex}")
        raise Violation("call", f"{src['text']!r}: {ex}")
    if got != 5:
        raise Violation("call", f"{src['text']!r} gave {got}")


class State:
    """
    d: the real one; loaded: sources it may run now ([] means not loaded, None
    in it means that it may be unloaded); looks: whether name and signature
    are known to be those of what is loaded
    """
    def __init__(self, run, cfg):
        self.run, self.cfg, self.log = run, cfg, []
        self.d, self.source = None, cfg["source"]
        self.loaded, self.looks = [None], True
        self.reports = []           # (category, exception name, text, source)
        self.flags = dict(call_fail=False, compile_fail=False)
        self.sure = True            # the reports and flags are known
        self.stale = []             # good sources compiled before
        self.blank = None

    def interrupts(self):
        return self.run.k.fault_counts.get("interrupt", 0)

    def guard(self, fn):
        before = self.interrupts()
        value, error = None, None
        try:
            value = fn()
        except (SimKill, HarnessError, Violation):
            raise
        except BaseException as ex:
            error = ex
        hit = self.interrupts() > before
        if hit and not isinstance(error, KeyboardInterrupt):
            raise Violation("interrupt-lost", f"interrupted, but gave "
                            f"{short(value)}, {error!r}")
        return value, error, hit

    def aside(self, fn):
        """look without being interrupted"""
        trace = sys.gettrace()
        sys.settrace(None)
        try:
            return fn()
        finally:
            sys.settrace(trace)

    def do(self, op):
        if self.d is None and op["op"] != "make":
            return
        what = f"{op} of {self.cfg}, loaded {short(self.loaded, 90)}"
        outcome = getattr(self, "do_" + op["op"])(op, what)
        self.log.append((op["n"], op["op"], outcome))
        if self.d is not None:
            self.aside(lambda: self.look(f"after {what}"))

    # ------------------------------------------------------------- the model --
    def loading(self, what, error, hit, refused=False):
        """a load was tried; whether the function runs now"""
        src = self.source
        if src["bad"] is not None:
            self.reports.append(("compile", src["bad"], "", None))
            self.flags["compile_fail"] = True
            if hit:
                self.sure = False
                return False
            # code of an earlier source may be used again, or nothing
            if error is None or self.stale and self.aside(
                    lambda: self.d.func is not None):
                if not self.stale:
                    raise Violation("bad-source", f"{what}: no error, but "
                                    f"there is nothing to load")
                self.loaded = list(self.stale)
                return True
            if not isinstance(error, Exception):
                raise Violation("bad-source", f"{what} raised {error!r}")
            return False
        if hit:
            self.sure = self.looks = False
            self.loaded = [*self.loaded, src]
            self.stale = [*self.stale, src]
            return False
        if error is not None:
            raise Violation("load", f"{what} raised {error!r}")
        self.loaded, self.looks, self.stale = [src], True, [src]
        return True

    def do_make(self, op, what):
        from dustgoggles.dynamic import Dynamic
        cfg = self.cfg
        kw = dict(optional=cfg["optional"], lazy=cfg["lazy"],
                  load_on_call=cfg["load_on_call"])
        if not cfg["plain"]:
            self.given = {} if cfg.get("empty") else \
                {"__builtins__": builtins}
            kw["globals_"] = self.given

        def make():
            self.d = Dynamic(self.source["text"], **kw)
        _, error, hit = self.guard(make)
        if self.d is None:
            if not hit and (error is None or self.source["bad"] is None or
                            cfg["lazy"] or not isinstance(error, Exception)):
                raise Violation("make", f"{what} raised {error!r}")
            return "nothing"
        if cfg["lazy"]:
            return "lazy"
        if self.source["bad"] is not None:
            raise Violation("bad-source", f"{what}: made although its source "
                            f"is bad")
        self.loaded, self.looks, self.stale = [self.source], True, [
            self.source]
        return "made"

    def do_source(self, op, what):
        self.source = op["source"]
        self.d.source = self.source["text"]

    def do_show(self, op, what):
        return None

    def is_loaded(self):
        """asks the function itself only where the model can not know"""
        if None in self.loaded and len(self.loaded) > 1:
            now = self.aside(lambda: self.d.func is not None)
            self.loaded = [s for s in self.loaded if (s is not None) == now]
        return self.loaded != [None]

    def do_load(self, op, what, **kw):
        from dustgoggles.dynamic import AlreadyLoadedError
        was = self.is_loaded()
        _, error, hit = self.guard(lambda: self.d.load(**kw))
        if was and not kw:
            if not hit and not isinstance(error, AlreadyLoadedError):
                raise Violation("load-twice", f"{what} gave {error!r}")
            return "refused"
        self.loading(what, error, hit)
        return "hit" if hit else type(error).__name__

    def do_reload(self, op, what):
        return self.do_load(op, what, reload=True)

    def do_unload(self, op, what):
        _, error, hit = self.guard(self.d.unload)
        if hit:
            self.sure = self.looks = False
            if None not in self.loaded:
                self.loaded = [*self.loaded, None]
            return "hit"
        if error is not None:
            raise Violation("unload", f"{what} raised {error!r}")
        self.loaded, self.looks, self.reports = [None], True, []
        self.flags = dict(call_fail=False, compile_fail=False)
        self.sure, self.stale = True, []
        return "unloaded"

    def do_call(self, op, what):
        from dustgoggles.dynamic import UnreadyError
        kw = {} if op["opt"] is None else {"_optional": op["opt"]}
        optional = self.cfg["optional"] if op["opt"] is None else op["opt"]
        was = self.is_loaded()
        value, error, hit = self.guard(lambda: self.d(1, **kw))
        if not was and not self.cfg["load_on_call"]:
            if not hit and not isinstance(error, UnreadyError):
                raise Violation("unready", f"{what} gave {short(value)}, "
                                f"{error!r}")
            return "unready"
        if not was and not self.loading(
                what, error if self.source["bad"] else None, hit):
            return "unloadable"
        if hit:
            self.sure = False
            return "hit"
        ok = [s for s in self.loaded if s is not None]
        for src in ok:
            if src["exc"] is None:
                if error is None and repr(value) == repr(src["value"]):
                    break
            elif optional:
                if error is None and value is None:
                    break
            elif type(error).__name__ == src["exc"] and \
                    src["at"] in str(error):
                break
        else:
            raise Violation("call", f"{what} gave {short(value)}, {error!r}")
        if len(ok) == 1 and src.get("mark") and repr(
                self.given.get("mark_", "nothing")) != repr(src["value"]):
            raise Violation("globals", f"{what} did not run in the globals "
                            f"it was given")
        if len(ok) > 1:
            # one that fails and one that gives None look the same
            self.sure = False
        elif src["exc"] is not None and optional:
            self.reports.append(("call", src["exc"], src["at"], src))
            self.flags["call_fail"] = True
            self.run.k.probe("report")
        return "ok"

    # ------------------------------------------------------------ the checks --
    def look(self, what):
        d, sure = self.d, [s for s in self.loaded if s is not None]
        if len(self.loaded) == 1:
            if (d.func is None) != (not sure):
                raise Violation("loaded", f"{what}: func is {d.func}")
        if self.looks and self.loaded == [None]:
            if self.blank is None:
                self.blank = str(d)
            if str(d) != self.blank or repr(d) != self.blank:
                raise Violation("looks", f"{what}: unloaded, looks like {d}, "
                                f"before like {self.blank}")
            if "(" in str(d):
                raise Violation("looks", f"{what}: unloaded, but looks like "
                                f"{d}")
            if any(d.__name__ == n for n in NAMES):
                raise Violation("looks", f"{what}: unloaded, but is called "
                                f"{d.__name__}")
        elif self.looks and len(sure) == 1 and None not in self.loaded:
            src = sure[0]
            space = {}
            exec(src["text"], space)
            want = inspect.signature(space[src["name"]])
            if d.__name__ != src["name"] or inspect.signature(d) != want:
                raise Violation("looks", f"{what}: called {d.__name__}"
                                f"{inspect.signature(d)} instead of "
                                f"{src['name']}{want}")
            # what it is called with is what it is shown with
            if str(want) not in str(d) or str(want) not in repr(d):
                raise Violation("looks", f"{what}: shown as {d}, is {want}")
        if not self.sure:
            return
        if len(d.errors) != len(self.reports):
            raise Violation("reports", f"{what}: {len(d.errors)} reports of "
                            f"{short(self.reports)}")
        for name, flag in self.flags.items():
            if bool(getattr(d, name, None)) != flag:
                raise Violation("flag", f"{what}: {name} should be {flag}")
        for got, want in zip(d.errors, self.reports):
            self.report(got, want, what)

    def report(self, got, want, what):
        category, exc, text, src = want
        said = str(got.get("exception"))
        if got.get("category") != category or exc not in said or \
                text not in said:
            raise Violation("reports", f"{what}: {short(got)} should be of "
                            f"{want[:3]}")
        where = [list(got.get(k) or ()) for k in (
            "name", "lineno", "filename")]
        if len(set(map(len, where))) != 1 or not where[0]:
            raise Violation("frames", f"{what}: {short(got, 300)}")
        if src is None:
            return
        depth = DEPTH[src["body"]]
        for (name, line), said, at in zip(
                depth[::-1], where[0][::-1], where[1][::-1]):
            if line != at or (name or src["name"]) not in said:
                raise Violation("frames", f"{what}: raised in "
                                f"{name or src['name']} at line {line}, "
                                f"reported as {short(where, 300)}")
