"""Common pieces of a simulated check: outcomes, history, op recording."""
import hashlib
import re
import random
import traceback

from sim import env, modstate, shm
from sim.kernel import (HarnessError, Kernel, SimKill, gen_sched, slow,  # noqa
                        make_chooser)


LIB = env.REPO.rstrip("/") + "/dustgoggles/"


class Violation(Exception):
    """cls: short stable class used for minimisation and known findings"""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class Outcome:
    def __init__(self):
        self.violation = None       # (cls, msg)
        self.steps = 0
        self.sim_time = 0.0
        self.faults = {}
        self.probes = {}
        self.fault_log = []
        self.choices = []
        self.events = []
        self.switch_log = []
        self.switches = 0
        self.nontrivial = False
        self.end = None             # kernel outcome
        self.history = []
        self.digest_extra = ""

    def digest(self):
        h = hashlib.sha256()
        h.update(repr(self.events).encode())
        h.update(repr(self.violation).encode())
        h.update(repr(self.history).encode())
        h.update(repr(sorted(self.faults.items())).encode())
        h.update(self.digest_extra.encode())
        return h.hexdigest()

    def shape(self):
        """identity of the execution: the sequence of seam calls (who, which
        kind) with the faults that fired, and where"""
        h = hashlib.sha256(repr([e[:2] for e in self.events]).encode())
        h.update(repr(self.fault_log).encode())
        h.update(self.digest_extra.encode())
        return h.hexdigest()[:16]


class Op:
    __slots__ = ("pid", "kind", "args", "inv", "ret", "ok", "value", "exc",
                 "msg", "interrupted", "hit")

    def __init__(self, pid, kind, args, inv):
        self.pid, self.kind, self.args, self.inv = pid, kind, args, inv
        self.ret = None             # None: never returned (killed / stuck)
        self.ok = None
        self.value = None
        self.exc = None
        self.msg = None
        self.hit = False            # the system refused something meanwhile

    def done(self):
        return self.ret is not None

    def __repr__(self):
        res = ("pending" if self.ret is None else
               f"-> {short(self.value)}" if self.ok else
               f"!! {self.exc}: {short(self.msg)}")
        return (f"[{self.inv}-{self.ret}] p{self.pid} {self.kind}"
                f"{short(self.args)} {res}")


def blame(ex):
    """did the code under test raise this, or the harness?"""
    if isinstance(ex, (HarnessError, SimKill)) or \
            not isinstance(ex, Exception):
        return "harness"
    tb = traceback.extract_tb(ex.__traceback__)
    if not any(f.filename.startswith(LIB) for f in tb):
        return "harness"
    if "/sim/" in tb[-1].filename and isinstance(
            ex, (NameError, AssertionError, AttributeError, TypeError)):
        return "harness"
    return "repo"


def odd(ex):
    """did interpreting what the code under test gave back fail?"""
    if not isinstance(ex, Exception) or isinstance(
            ex, (HarnessError, SimKill, ImportError, MemoryError,
                 RecursionError)):
        return False
    for f in reversed(traceback.extract_tb(ex.__traceback__)):
        if f.filename.startswith(LIB):
            return False
        if "/sim/" in f.filename:
            return "/sim/props/" in f.filename or \
                f.filename.endswith("/comp.py")
    return False


def short(x, n=90):
    try:
        s = repr(x)
    except Exception as ex:     # e.g. an array of half-written strings
        s = f"<unprintable {type(x).__name__}: {type(ex).__name__}>"
    s = re.sub(r" at 0x[0-9a-f]+", "", s)
    return s if len(s) <= n else s[: n - 3] + "..."


class History:
    def __init__(self, kernel):
        self.k = kernel
        self.ops = []

    def do(self, kind, args, fn):
        """run fn as one recorded operation; ordinary exceptions and
        keyboard interrupts are outcomes, a kill leaves it pending"""
        pid = self.k.current.pid if self.k.current else 0
        op = Op(pid, kind, args, self.k.stamp())
        self.ops.append(op)
        log = self.k.fault_log
        n = len(log)
        try:
            op.value = fn()
            op.ok = True
        except SimKill:
            raise
        except HarnessError:
            raise
        except (Exception, KeyboardInterrupt) as ex:
            op.ok = False
            op.exc = type(ex).__name__
            op.msg = str(ex)
            if isinstance(ex, Exception) and isinstance(
                    ex, (NameError, AssertionError, AttributeError,
                         TypeError)) and blame(ex) == "harness":
                if odd(ex):
                    raise Violation("uninterpretable", f"{kind}"
                                    f"{short(args)}: {type(ex).__name__}: "
                                    f"{ex}")
                raise HarnessError("".join(traceback.format_exception(ex)))
            ex.__traceback__ = None
            del ex
        op.hit = any(x[1] == pid and x[0][:1] == "E" for x in log[n:])
        op.ret = self.k.stamp()
        return op


def lack(rng, top=25):
    """a process that runs out of descriptors; see lacking()"""
    return dict(kind="errno", call="open", nth=rng.randint(1, top),
                times=rng.choice((1, 1, 2, 9)),
                errno=rng.choice(("EMFILE", "ENFILE", "ENOMEM")))


class lacking:
    """what a process does to get ready is spared its faults"""

    def __init__(self, p, spec):
        self.p, self.on = p, spec.get("lack")

    def __enter__(self):
        if self.on:
            self.kept, self.p.call_faults = self.p.call_faults, {}

    def __exit__(self, *_):
        if self.on:
            self.p.call_faults = self.kept


class SimRun:
    """one simulated run: kernel + shared-memory world + history"""

    def __init__(self, plan, chooser=None, max_steps=None, line_prefix=None):
        self.plan = plan
        self.chooser = chooser or make_chooser(plan["sched"])
        self.k = Kernel(self.chooser, max_steps or plan.get("max_steps", 6000),
                        line_prefix)
        cfg = plan.get("cfg", {})
        tear = random.Random(f"tear:{cfg['tear_seed']}") \
            if cfg.get("tear_p") else None
        self.w = shm.World(self.k, tear)
        self.w.tear_p = cfg.get("tear_p", 0.0)
        self.h = History(self.k)
        self.out = Outcome()
        self.viol = None

    def __enter__(self):
        from sim import worker
        worker.CURRENT["run"] = self
        modstate.reset()
        shm.STATE.world = self.w
        modstate.enter(self.k.setup_space)
        return self

    def __exit__(self, et, ev, tb):
        k, o = self.k, self.out
        shm.STATE.world = None
        modstate.reset()
        o.steps, o.sim_time = k.steps, k.clock
        o.faults, o.probes = k.fault_counts, k.probes
        o.fault_log = k.fault_log
        o.choices, o.events = k.choices, k.events
        o.switch_log, o.switches = k.switch_log, k.switches
        o.end = k.outcome
        o.history = [repr(op) for op in self.h.ops]
        o.nontrivial = o.nontrivial or k.switches > 0 or bool(k.fault_counts)
        if et is None:
            return False
        if issubclass(et, Violation):
            o.violation = (ev.cls, ev.msg)
            return True
        if self.viol is not None and not issubclass(et, HarnessError):
            o.violation = self.viol
            return True
        if blame(ev) == "repo":
            o.violation = ("unexpected-error", f"{et.__name__}: {ev}")
            return True
        if odd(ev):
            o.violation = ("uninterpretable", f"{et.__name__}: {ev}")
            return True
        return False

    def fail(self, cls, msg):
        """remember the first violation seen while the run is in progress"""
        if self.viol is None:
            self.viol = (cls, msg)

    def go(self):
        end = self.k.run()
        if self.viol is not None:
            raise Violation(*self.viol)
        return end

    def aside(self, fn, *args):
        """call fn while this run's world is switched off"""
        shm.STATE.world = None
        try:
            return fn(*args)
        finally:
            shm.STATE.world = self.w

    def solo(self, fn, what="a final operation"):
        """run fn alone in a new process after the others have ended"""
        box = []
        self.k.spawn(lambda p: box.append(fn(p)))
        self.go()
        self.require_end(what)
        return box[0] if box else None

    def require_end(self, what="the operations in progress"):
        if self.k.outcome in ("stuck", "stepcap"):
            pend = [repr(o) for o in self.h.ops if o.ret is None]
            waiting = sorted({o.pid for o in self.h.ops if o.ret is None})
            raise Violation(
                "no-progress",
                f"run ended {self.k.outcome}: {what} never complete; "
                f"waiting procs {waiting}; pending {pend[:4]}")


TWINS = (("k809937", "k1077278"), ("k153629", "k164064"),   # sha256 start
         ("k62554", "k72620"),                              # sha256 end
         ("k15231", "k25525"), ("k12790", "k35956"),        # md5, sha1
         ("q599430bd25", "qf7633dd321"),                    # crc32
         ("k120", "k201"), ("ab", "ba"), ("Key", "key"))


# keys that are no text; plans name them by their text
ODD = {str(k): k for k in (
    b"k", b"b\xe9", b"", (1, "a"), (), 2.5, -0.0, 1e16, True, None, 3 + 4j)}


def given(key):
    """the key as the library gets it"""
    return ODD.get(key, key) if type(key) is str else key


def names(rng, n, style=None, prefix=None):
    """n distinct keys of assorted shapes, perhaps like another's address"""
    style = style or rng.choice(
        ("short", "short", "prefix", "unicode", "long", "int", "mixed",
         "twins", "odd"))
    out = []
    pool = []
    if style in ("short", "mixed"):
        pool += [chr(97 + i) for i in range(26)]
    if style in ("prefix", "mixed"):
        pool += ["k" * i for i in range(1, 14)] + \
            ["k_0", "k_1", "k_0_1", "k_key_0", "k_val_0", "k_name_0"]
    if style in ("unicode", "mixed"):
        pool += ["\u00e9t\u00e9", "\u706b\u661f", "\U0001f680", "a b", "A", "a.b",
                 "na\u00efve", "\u00df", "x:y", "tab\tkey", "0", "-1"]
    if style in ("long", "mixed"):
        pool += [c * 60 for c in "abcdef"] + ["z" * 100 + str(i)
                                              for i in range(10)]
    if style in ("int", "mixed"):
        pool += [0, 1, 7, 42, 255, 256, 65536, 123456789, -3]
    if style == "free":
        # what cannot be part of a block's name
        pool += ["a/b", "/", "../a", ".", "nul\0key", "\0", " ", "a\n",
                 "key_0", "name", "q" * 300, "\u00e9" * 200, "count"]
    if style == "odd":
        pool += [*ODD, "k", "b", "1", "k\n", "' '", "None_"]
    rng.shuffle(pool)
    if style == "twins":
        # different keys with equal digests of some shortened kind
        pairs = [p for p in TWINS]
        rng.shuffle(pairs)
        pool = [k for p in pairs for k in rng.sample(p, 2)]
    seen = set()
    while len(out) < n:
        k = pool.pop() if pool else f"g{rng.randrange(10**6)}"
        if str(k) in seen or str(k).startswith("index"):
            continue
        seen.add(str(k))
        out.append(k)
    if prefix is not None and n > 1 and rng.random() < 0.12:
        alike = f"{prefix}_{out[0]}"
        if alike not in seen:
            out[-1] = alike
    return out


VALUE_SHAPES = ("small", "small", "none", "str", "bytes", "nested", "big",
                "float", "uni", "bool", "grow")


def gen_value(rng, tag):
    """JSON-able description of a value; unique through `tag`"""
    shape = "huge" if rng.random() < 0.01 else rng.choice(VALUE_SHAPES)
    return [shape, tag, rng.randrange(1 << 16)]


def build_value(desc):
    shape, tag, r = desc
    if shape == "small":
        return ("v", tag)
    if shape == "none":
        return None
    if shape == "str":
        return f"value-{tag}-" + "x" * (r % 40)
    if shape == "bytes":
        return bytes([tag % 256]) * (1 + r % 60) + str(tag).encode()
    if shape == "nested":
        return {"tag": tag, "l": [1, 2, {"r": r}], "t": (tag, None),
                "s": {tag, r}}
    if shape == "big":
        return str(tag) + "B" * (4000 + r % 9000)
    if shape == "huge":
        return str(tag) + "H" * (66000 + r * 3)
    if shape == "float":
        return tag + r / 7.0
    if shape == "uni":
        return f"\u706b\u661f{tag}\U0001f680"
    if shape == "bool":
        return [tag, bool(r & 1), False]
    if shape == "grow":
        return [tag] * (1 + r % 300)
    raise HarnessError(f"value shape {shape}")


def same(a, b):
    """equal in value and type, through containers"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b
