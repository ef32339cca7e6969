"""Compositions built from descriptions, and a small reference model of them."""
import functools
import hashlib

EXCS = ("ValueError", "KeyError", "OSError", "Custom", "StopIteration",
        "RuntimeError", "KeyboardInterrupt", "SystemExit", "ZeroDivisionError",
        "Exit", "GeneratorExit")
HARD = ("KeyboardInterrupt", "SystemExit", "Exit", "GeneratorExit")


class Custom(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


class Exit(BaseException):
    pass


def make_exc(name, text):
    import builtins
    if name == "Custom":
        return Custom(text, 1)
    if name == "Exit":
        return Exit(text)
    return getattr(builtins, name)(text)


def dig(*parts):
    return hashlib.md5(repr(parts).encode()).hexdigest()[:10]


def result(i, shape, args, kwargs):
    if shape == "none":
        return None
    if shape == "falsy":
        return ("", 0, [], False)[int(dig(i, args), 16) % 4]
    tag = dig(i, args, sorted(kwargs.items()))
    if shape == "list":
        return [i, tag]
    if shape == "dict":
        return {"s": i, "t": tag}
    return f"{i}:{tag}"


# ---------------------------------------------------------------- generation
def gen_value(rng):
    return rng.choice((1, 2, "v", None, 0, "w", [1], 3.5))


def gen_comp(rng, depth=0, threads=False, n=None):
    n = n or (rng.choice((1, 1, 2, 2, 3, 4, 6)) if not depth else
              rng.choice((1, 2)))
    style = rng.choice(("int", "str", "mixed"))
    names = list(range(n)) if style == "int" else \
        [f"s{j}" for j in range(n)] if style == "str" else \
        [j if j % 2 else f"s{j}" for j in range(n)]
    steps = []
    for name in names:
        steps.append(gen_step(rng, name, depth, threads))
    sends = []
    for _ in range(rng.choice((0, 0, 1, 2, 4))):
        sends.append(gen_send(rng, names, threads))
    inserts = []
    for _ in range(rng.choice((0, 0, 1, 2, 3))):
        inserts.append(gen_insert(rng, names))
    if rng.random() < 0.03:
        # more fixed arguments than there are digits
        step, free = rng.choice(names), rng.randrange(13)
        inserts += [dict(step=step, key=n, value=gen_value(rng),
                         init=rng.random() < 0.5)
                    for n in range(13) if n != free]
    return dict(steps=steps, sends=sends, inserts=inserts,
                tracker=rng.random() < 0.6 and not depth,
                captures=rng.random() < 0.3,
                optional=rng.random() < (0.35 if not threads else 0.1),
                seq=style == "int" and rng.random() < 0.5)


def gen_step(rng, name, depth=0, threads=False):
    form = rng.choice(("plain", "plain", "plain", "partial", "partial",
                       "lambda", "object", "method") +
                      (("comp",) if depth == 0 and not threads else ()))
    st = dict(name=name, form=form, id=f"f{rng.randrange(1000)}",
              shape=rng.choice(("str", "str", "str", "none", "list", "dict",
                                "falsy")))
    if form == "partial":
        st["args"] = [gen_value(rng) for _ in range(rng.choice((0, 1, 2)))]
        st["kwargs"] = {k: gen_value(rng) for k in rng.sample(
            ("a", "b", "c"), rng.choice((0, 1, 2)))}
    if form == "comp":
        st["comp"] = gen_comp(rng, depth + 1)
    return st


def gen_send(rng, names, threads=False):
    step = rng.choice(names) if rng.random() < 0.93 else "nowhere"
    kind = rng.choice(("pipe", "pipe", "append", "set", "dict", "write",
                       "dual") + (() if threads else ("insert", "insert")))
    d = dict(step=step, kind=kind, pipe=kind in ("pipe", "dual") or
             rng.random() < 0.4, id=f"p{rng.randrange(1000)}",
             shape=rng.choice(("str", "str", "none", "list")),
             init=rng.random() < 0.4)
    if kind == "insert":
        d["into"] = rng.choice(names)
        d["key"] = rng.choice((0, 1, 2, "a", "b", "k"))
    if kind == "dual":
        d["kind"] = "append"
    return d


def gen_insert(rng, names):
    return dict(step=rng.choice(names) if rng.random() < 0.95 else "nowhere",
                key=rng.choice((0, 1, 1, 2, "a", "b", "k")),
                value=gen_value(rng), init=rng.random() < 0.5)


# --------------------------------------------------------------- real object
class Target:
    """something with write()"""

    def __init__(self, real, n):
        self.real, self.n = real, n

    def write(self, thing):
        self.real.call("write", f"w{self.n}", (thing,), {}, "none")


class Obj:
    def __init__(self, fn):
        self._fn = fn

    def __call__(self, *a, **k):
        return self._fn(*a, **k)


class Holder:
    def __init__(self, fn):
        self._fn = fn

    def step(self, *a, **k):
        return self._fn(*a, **k)


def bound(base, bind):
    """a subclass which takes an argument of one step at execution"""
    if bind is None:
        return base

    class Bound(base):
        def _bind_special_runtime_kwargs(self, special_kwargs):
            for value in special_kwargs.values():
                self.add_insert(bind["step"], bind["key"], value)

    return Bound


class Real:
    """builds the composition; its callables log what happens to them"""

    def __init__(self, desc, log, hit, name="main", tracker=None):
        from dustgoggles.composition import Composition
        self.desc, self.log, self.hit = desc, log, hit
        self.targets, self.children, self.funcs = {}, {}, {}
        steps = {s["name"]: self.step(s) for s in desc["steps"]}
        sends, later, inserts, then = {}, [], {}, []
        for n, sd in enumerate(desc["sends"]):
            entry = self.send(n, sd)
            if sd["init"]:
                sends.setdefault(sd["step"], []).append(entry)
            else:
                later.append((sd["step"],) + entry)
        for x in desc["inserts"]:
            if x["init"]:
                inserts.setdefault(x["step"], {})[x["key"]] = x["value"]
            else:
                then.append(x)
        self.tracker = tracker
        self.c = bound(Composition, desc.get("bind"))(
            list(steps.values()) if desc["seq"] else steps, sends, inserts,
            name, tracker, desc["optional"])
        for step, pipe, target, index in later:
            self.c.add_send(step, pipe, target, index)
        for x in then:
            self.c.add_insert(x["step"], x["key"], x["value"])
        if desc["captures"]:
            self.c.add_captures()

    def call(self, what, ident, args, kwargs, shape):
        self.log.append((what, ident, repr(args), repr(sorted(
            kwargs.items()))))
        self.hit(what, ident)
        return result(ident, shape, args, kwargs)

    def step(self, s):
        if s["form"] == "comp":
            child = Real(s["comp"], self.log, self.hit, "inner")
            self.children[s["name"]] = child
            self.funcs[s["name"]] = child.c
            return child.c

        def fn(*args, **kwargs):
            return self.call("step", s["id"], args, kwargs, s["shape"])
        fn.__name__ = s["id"]
        form = s["form"]
        if form == "partial":
            f = functools.partial(fn, *s["args"], **s["kwargs"])
        elif form == "lambda":
            f = lambda *a, **k: fn(*a, **k)     # noqa
        elif form == "object":
            f = Obj(fn)
        elif form == "method":
            f = Holder(fn).step
        else:
            f = fn
        self.funcs[s["name"]] = f
        return f

    def send(self, n, sd):
        pipe = None
        if sd["pipe"]:
            def pipe(state):
                return self.call("pipe", sd["id"], (state,), {}, sd["shape"])
        kind, target, index = sd["kind"], None, None
        if kind == "append":
            target = self.targets[n] = []
        elif kind == "set":
            target, index = [None, None], 1
            self.targets[n] = target
        elif kind == "dict":
            target, index = {}, "slot"
            self.targets[n] = target
        elif kind == "write":
            target = Target(self, n)
        elif kind == "insert":
            target, index = sd["into"], sd["key"]
        return pipe, target, index

    def state(self):
        """what is left in the targets, captures and inserts"""
        return snapshot(self.targets, self.c.captures, self.c.inserts,
                        self.children)


# --------------------------------------------------------------------- model
class Fail(Exception):
    """the model reached the call that fails"""

    def __init__(self, exc):
        self.exc = exc


class Stop(Exception):
    """the model has come as far as it should"""


class Env:
    """what a model and its inner models share"""

    def __init__(self, fails):
        self.fails = fails          # {(kind, nth): exception name}
        self.log, self.counts = [], {}
        self.ticks, self.stop = 0, None

    def call(self, what, ident, args, kwargs, shape):
        self.log.append((what, ident, repr(args), repr(sorted(
            kwargs.items()))))
        self.tick()
        n = self.counts[what] = self.counts.get(what, 0) + 1
        if (what, n) in self.fails:
            raise Fail(self.fails[what, n])
        return result(ident, shape, args, kwargs)

    def tick(self):
        self.ticks += 1
        if self.ticks == self.stop:
            raise Stop


class Model:
    def __init__(self, desc, env):
        self.desc, self.env = desc, env
        self.optional = desc["optional"]
        self.steps = {s["name"]: s for s in desc["steps"]}
        self.children = {s["name"]: Model(s["comp"], env)
                         for s in desc["steps"] if s["form"] == "comp"}
        self.targets, self.sends, self.inserts = {}, {}, {}
        for first in (True, False):
            for n, sd in enumerate(desc["sends"]):
                if sd["init"] is first:
                    self.add_send(n, sd)
            for x in desc["inserts"]:
                if x["init"] is first:
                    self.inserts.setdefault(x["step"], {})[x["key"]] = \
                        x["value"]
        self.captures = None
        if desc["captures"]:
            self.capture_all()

    def capture_all(self):
        self.captures = {k: [None] for k in self.steps}
        for k in self.captures:
            self.sends.setdefault(k, []).append(
                (k, dict(kind="capture", pipe=False,
                         box=self.captures[k])))

    def add_send(self, n, sd):
        if sd["kind"] == "append":
            self.targets[n] = []
        elif sd["kind"] == "set":
            self.targets[n] = [None, None]
        elif sd["kind"] == "dict":
            self.targets[n] = {}
        self.sends.setdefault(sd["step"], []).append((n, sd))

    def do_step(self, name, state):
        s = self.steps[name]
        ins = self.inserts.get(name, {})
        args, kwargs = {}, {}
        if s["form"] == "partial":
            args.update(enumerate(s["args"]))
            kwargs.update(s["kwargs"])
        args.update({k: v for k, v in ins.items() if isinstance(k, int)})
        kwargs.update({k: v for k, v in ins.items() if isinstance(k, str)})
        free = 0
        while free in args:
            free += 1
        args[free] = state
        pos = tuple(args[k] for k in sorted(args))
        if s["form"] == "comp":
            # the inner composition takes one signal
            if len(pos) > 1:
                raise Fail("TypeError")
            return self.children[name].execute(pos[0])
        return self.env.call("step", s["id"], pos, kwargs, s["shape"])

    def do_sends(self, name, state):
        for n, sd in self.sends.get(name, ()):
            thing = state
            if sd["pipe"]:
                thing = self.env.call("pipe", sd["id"], (state,), {},
                                      sd["shape"])
            kind = sd["kind"]
            if kind == "append":
                self.targets[n].append(thing)
            elif kind == "set":
                self.targets[n][1] = thing
            elif kind == "dict":
                self.targets[n]["slot"] = thing
            elif kind == "write":
                self.env.call("write", f"w{n}", (thing,), {}, "none")
            elif kind == "insert":
                self.inserts.setdefault(sd["into"], {})[sd["key"]] = thing
            elif kind == "capture":
                sd["box"][0] = thing
            self.env.tick()

    def walk(self, signal, at=None, special=None):
        """yields the outputs; `at` learns where it is"""
        state = signal
        if special is not None:
            bind = self.desc["bind"]
            self.inserts.setdefault(bind["step"], {})[bind["key"]] = special
            self.env.tick()
        for name in list(self.steps):
            if at is not None:
                at[:] = [name, "step"]
            state = self.do_step(name, state)
            if at is not None:
                at[:] = [name, "send"]
            self.do_sends(name, state)
            yield name, state

    def execute(self, signal):
        state = None
        try:
            for _, state in self.walk(signal):
                pass
            return state
        except Fail as f:
            if self.optional and f.exc not in HARD:
                return None
            raise

    def state(self):
        return snapshot(self.targets, self.captures, self.inserts,
                        self.children)


def snapshot(targets, captures, inserts, children):
    return dict(
        targets={str(k): repr(v) for k, v in targets.items()},
        captures=repr({str(k): v for k, v in captures.items()})
        if captures is not None else None,
        inserts=repr({str(k): sorted(map(repr, v.items()))
                      for k, v in sorted(inserts.items(),
                                         key=lambda e: str(e[0])) if v}),
        children={str(k): c.state() for k, c in children.items()})
