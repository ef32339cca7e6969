"""
Deterministic scheduler.

Simulated processes ("procs") are real threads of which exactly one runs at a
time: each is parked on its own lock and released by the one that was running.
Control can only change hands inside `Kernel.point()`, which every seam calls
before it has an effect.  Which proc goes next is decided by a `Chooser`; the
list of its decisions is the schedule, and replaying that list with the same
plan reproduces the run exactly.

Time is simulated.  A proc that sleeps is parked until the simulated clock
has reached its wake-up time *and* either the shared world has changed since it
went to sleep or nothing else can run (a spin loop that re-reads an unchanged
world cannot make progress, so running it again would only waste steps).
"""
import _thread
import random
import sys

from sim import modstate

BIG = 1 << 60


class SimKill(BaseException):
    """the simulated process was killed: unwinds its thread; every seam it
    touches on the way raises this again and has no effect."""


class HarnessError(Exception):
    """the machinery itself is wrong; never reported as a violation."""


WARM = []


def warm_up():
    """the interpreter sends instruction events only once some frame has
    asked for them and tracing is then set anew"""
    if not WARM:
        def t(frame, event, arg):
            frame.f_trace_opcodes = True

        WARM.append(1)
        sys.settrace(t)
        (lambda: 0)()
        sys.settrace(None)


# ------------------------------------------------------------------ choosers
class Chooser:
    def choose(self, kernel, cands, kind):
        raise NotImplementedError


class RandomChooser(Chooser):
    """keep running the current proc, except with probability p"""

    def __init__(self, seed, p):
        self.rng, self.p = random.Random(f"sched:{seed}"), p

    def choose(self, kernel, cands, kind):
        if self.rng.random() >= self.p:
            return 0
        return self.rng.randrange(len(cands))


class BurstChooser(Chooser):
    """
    switch often right after the calls that create in-flight state, rarely
    elsewhere; when switching, sometimes let the other proc run for long.
    """
    HOT = frozenset(("trunc", "stat", "write", "unlink", "tear", "mark"))

    def __init__(self, seed, p):
        self.rng, self.p = random.Random(f"burst:{seed}"), p
        self.quiet = 0

    def choose(self, kernel, cands, kind):
        if self.quiet > 0:
            self.quiet -= 1
            return 0
        p = self.p if kind in self.HOT else self.p / 12
        if self.rng.random() >= p:
            return 0
        if self.rng.random() < 0.5:
            self.quiet = self.rng.choice((3, 10, 30, 100))
        return self.rng.randrange(len(cands))


class PctChooser(Chooser):
    """random priorities with `d` random priority changes (PCT)"""

    def __init__(self, seed, d, horizon):
        self.rng = random.Random(f"pct:{seed}")
        self.prio = {}
        self.changes = sorted(
            self.rng.randrange(1, max(2, horizon)) for _ in range(d)
        )
        self.low = 0.0

    def choose(self, kernel, cands, kind):
        for p in cands:
            if p.pid not in self.prio:
                self.prio[p.pid] = 1 + self.rng.random()
        while self.changes and kernel.steps >= self.changes[0]:
            self.changes.pop(0)
            self.low -= 1
            self.prio[cands[0].pid] = self.low
        best = max(range(len(cands)), key=lambda i: self.prio[cands[i].pid])
        return best


class ListChooser(Chooser):
    """replays a recorded list of decisions, then never switches"""

    def __init__(self, choices):
        self.choices, self.i = choices, 0

    def choose(self, kernel, cands, kind):
        i = self.i
        self.i += 1
        if i < len(self.choices):
            c = self.choices[i]
            return c if c < len(cands) else 0
        return 0


def make_chooser(sched):
    kind = sched["kind"]
    if kind == "random":
        return RandomChooser(sched["seed"], sched["p"])
    if kind == "burst":
        return BurstChooser(sched["seed"], sched["p"])
    if kind == "pct":
        return PctChooser(sched["seed"], sched["d"], sched["horizon"])
    if kind == "list":
        return ListChooser(sched["choices"])
    raise HarnessError(f"unknown schedule kind {kind}")


def slow(rng, top, steps):
    """
    a process is held up for some steps, or for some time (in which others
    may wait in vain), or sets the clock.  several that are held up in turn
    stay below the five seconds that opening waits for a block being created
    """
    r, at = rng.random(), rng.randint(1, top)
    if r < 0.6:
        return {"kind": "stall", "at": at, "for": rng.choice(steps)}
    if r < 0.75:        # a block is there, but without a size
        return {"kind": "pause", "call": "trunc", "nth": rng.randint(1, 5),
                "secs": rng.choice((0.02, 0.5, 1))}
    if r < 0.85:
        return {"kind": "pause", "at": at, "secs": rng.choice((0.02, 0.5, 1))}
    return {"kind": "jump", "at": at, "secs": rng.choice((3600, 60, -3600))}


def gen_sched(rng, horizon=600):
    """swarm: a schedule family and its parameters for one run"""
    r = rng.random()
    seed = rng.randrange(1 << 48)
    if r < 0.4:
        return dict(kind="random", seed=seed,
                    p=rng.choice((0.01, 0.03, 0.1, 0.25, 0.5, 0.9)))
    if r < 0.75:
        return dict(kind="burst", seed=seed, p=rng.choice((0.1, 0.3, 0.6, 0.9)))
    return dict(kind="pct", seed=seed, d=rng.choice((1, 2, 3, 5, 8)),
                horizon=rng.choice((horizon // 4, horizon, horizon * 3)))


# --------------------------------------------------------------------- procs
class Proc:
    def __init__(self, kernel, pid, fn, family=0, faults=(), space=None):
        self.kernel, self.pid, self.fn = kernel, pid, fn
        self.family = family
        # address space: threads of one simulated process share it
        self.space = space if space is not None else Space(pid, family)
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.points = 0
        self.state = "ready"         # ready | parked | blocked | done
        self.dead = False
        self.was_killed = False      # by a fault of the plan
        self.wake = 0.0
        self.seen = -1
        self.woke = -1              # world version when the last sleep ended
        self.futile = 0
        self.futile_version = -1
        self.last_run = 0
        self.stall_until = 0
        self.calls = {}
        self.error = None
        self.daemon = False         # does not keep the run going
        self.kills = 0
        self.blocked_on = None
        # faults: {"at": n} (nth point of the proc) or {"call": k, "nth": n}
        self.at_faults = {f["at"]: f for f in faults if "at" in f}
        self.call_faults = {}
        # {"from": n, "calls": [...], "times": m}: from the proc's nth point
        # on, the next m calls of these kinds fail
        self.windows = [dict(f) for f in faults if "from" in f]
        for f in faults:
            if "call" in f:
                for i in range(f.get("times", 1)):
                    self.call_faults[(f["call"], f["nth"] + i)] = f


class Space:
    """what belongs to one simulated process (shared by its threads)"""

    def __init__(self, pid, family):
        self.pid, self.family = pid, family
        self.atexit = []
        self.rng = random.Random(f"space:{pid}")
        self.tracker = None          # per-process view of resource_tracker
        self.inherited = None        # what its library's modules hold, if forked
        self.fds = set()
        self.exit_errors = []
        self.finalizers, self.finalizing = [], False    # weakref.finalize


class Kernel:
    STUCK = 40

    def __init__(self, chooser, max_steps=6000, line_prefix=None):
        self.chooser = chooser
        self.max_steps = max_steps
        self.procs = []
        self.current = None
        self.steps = 0
        self.stamp_n = 0
        self.clock = 0.0
        self.skew = 0.0              # of the clock that tells the time of day
        self.version = 0            # of the shared world
        self.choices = []           # recorded schedule
        self.switches = 0
        self.events = []
        self.outcome = None         # None | "ok" | "stuck" | "stepcap"
        self.teardown = False
        self.fair = False
        self.fair_left = 0
        self.fault_counts = {}
        self.fault_log = []
        self.probes = {}
        self.on_exit = []           # callbacks(proc) on process end
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.harness_error = None
        self.proc_error = None
        self.started = 0
        self.base = 0               # steps taken by earlier phases
        self.setup_space = Space(0, 0)
        self.switch_log = []
        self.line_prefix = line_prefix
        self.trace_opcodes = False

    # ------------------------------------------------------------ bookkeeping
    def stamp(self):
        self.stamp_n += 1
        return self.stamp_n

    def count_fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
        p = self.current
        self.fault_log.append((kind, p.pid if p else 0, len(self.events)))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def changed(self):
        self.version += 1

    @property
    def space(self):
        return self.current.space if self.current else self.setup_space

    # ------------------------------------------------------------------ procs
    def spawn(self, fn, family=0, faults=(), space=None, daemon=False):
        p = Proc(self, len(self.procs) + 1, fn, family, faults, space)
        p.daemon = daemon
        self.procs.append(p)
        if self.current is not None:        # started by a running proc
            if space is None:
                p.space.inherited = modstate.snapshot()
            _thread.start_new_thread(self._body, (p,))
            self.started = len(self.procs)
        return p

    def _body(self, p):
        p.lock.acquire()
        modstate.enter(p.space)
        try:
            if self.teardown:
                raise SimKill
            if self.line_prefix:
                if self.trace_opcodes:
                    warm_up()
                sys.settrace(self._trace)
            p.fn(p)
            if self.line_prefix:
                sys.settrace(None)
            self._graceful_exit(p)
        except SimKill:
            pass
        except BaseException as ex:  # noqa
            p.error = ex
            if self.proc_error is None:
                self.proc_error = ex
        p.state = "done"
        for q in self.procs:        # which others may be waiting for
            q.futile = 0
        p.dead = True
        try:
            for cb in self.on_exit:
                cb(p)
        except BaseException as ex:  # noqa
            self.harness_error = self.harness_error or repr(ex)
        self._finish(p)

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.line_prefix):
            return None
        if self.trace_opcodes:
            frame.f_trace_opcodes = True
        return self._trace_line

    def _trace_line(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point("line", frame.f_lineno)
        return self._trace_line

    def _graceful_exit(self, p):
        """run the process's exit hooks, last registered first"""
        sp = p.space
        if any(q is not p and q.space is sp and q.state != "done"
               for q in self.procs):
            return                   # other threads of the process still run
        while sp.atexit:
            fn, args, kwargs = sp.atexit.pop()
            try:
                fn(*args, **kwargs)
            except Exception as ex:
                sp.exit_errors.append(f"{type(ex).__name__}: {ex}")

    def run(self):
        """
        run all procs to completion, a stuck state or the step cap.  may be
        called again after spawning more procs (a later phase of the run).
        """
        self.outcome = None
        self.teardown = False
        self.fair = False
        self.base = self.steps
        for p in self.procs[self.started:]:
            _thread.start_new_thread(self._body, (p,))
        self.started = len(self.procs)
        first = self._pick(None, "start")
        if first is None:
            self.outcome = "ok"
        else:
            self.current = first
            first.lock.release()
            self.main_lock.acquire()
        self.current = None
        # unwind whatever is still parked
        self.teardown = True
        for p in self.procs:
            if p.state != "done":
                p.dead = True
                self.current = p
                p.lock.release()
                self.main_lock.acquire()
        self.current = None
        self.teardown = False
        modstate.enter(self.setup_space)
        if self.proc_error is not None:
            raise self.proc_error
        if self.harness_error:
            raise HarnessError(self.harness_error)
        return self.outcome

    def _finish(self, p):
        """proc p has ended; hand over"""
        if self.teardown:
            self.main_lock.release()
            return
        nxt = self._pick(None, "exit")
        if nxt is None:
            if self.outcome is None:
                self.outcome = "ok"
            self.main_lock.release()
            return
        self.current = nxt
        nxt.lock.release()

    def _abort(self, outcome):
        """stop the run from inside a proc"""
        self.outcome = outcome
        p = self.current
        self.main_lock.release()
        p.lock.acquire()             # woken again by teardown
        modstate.enter(p.space)
        raise SimKill

    # -------------------------------------------------------------- scheduling
    def _runnable(self, q):
        if q.state == "ready":
            return q.stall_until <= self.steps
        if q.state == "parked":
            return q.wake <= self.clock and q.seen != self.version
        return False

    def _pick(self, cur, kind):
        """choose who runs next; None if everybody is done; may set outcome"""
        cands = []
        if cur is not None and cur.state == "ready" \
                and cur.stall_until <= self.steps:
            cands.append(cur)
        for q in self.procs:
            if q is not cur and self._runnable(q):
                cands.append(q)
        if not cands:
            live = [q for q in self.procs if q.state != "done"]
            if all(q.daemon for q in live):
                return None
            ready = [q for q in live if q.state == "ready"]
            if ready:                # only stalled procs are left: end stall
                q = min(ready, key=lambda q: (q.stall_until, q.pid))
                q.stall_until = 0
                return q
            parked = [q for q in live if q.state == "parked"]
            if not parked:
                self.outcome = "stuck"
                return None
            q = min(parked, key=lambda q: (max(q.wake, self.clock),
                                           q.last_run, q.pid))
            # nothing can run: jump the clock
            self.clock = max(self.clock + 0.5 * (q.wake <= self.clock),
                             q.wake)
            for r in live:
                if r.futile_version != self.version:
                    r.futile, r.futile_version = 0, self.version
            q.futile += 1
            q.last_run = self.steps
            if all(r.futile >= self.STUCK for r in parked):
                self.outcome = "stuck"
                return None
            q.state = "ready"
            return q
        if self.fair:
            nxt = self._fair_pick(cur, cands)
        elif len(cands) == 1:
            nxt = cands[0]
        else:
            i = self.chooser.choose(self, cands, kind)
            self.choices.append(i)
            nxt = cands[i]
        nxt.state = "ready"
        return nxt

    def _fair_pick(self, cur, cands):
        if cur is not None and cands[0] is cur and self.fair_left > 0:
            self.fair_left -= 1
            return cur
        self.fair_left = 60
        return min(cands, key=lambda q: (q.last_run, q.pid))

    def _switch(self, p, kind):
        nxt = self._pick(p, kind)
        if nxt is None:
            self._abort(self.outcome or "stuck")
        if nxt is not p:
            self.switches += 1
            p.last_run = self.steps
            self.switch_log.append((p.pid, kind, nxt.pid))
            self.current = nxt
            nxt.lock.release()
            p.lock.acquire()
            modstate.enter(p.space)
            if p.dead:
                raise SimKill

    def point(self, kind, arg=""):
        """
        a seam is about to have an effect.  returns an errno fault (dict) to
        apply instead of the effect, or None.
        """
        p = self.current
        if p is None:
            return None
        if p.dead:
            p.kills += 1
            if p.kills > 2000:
                raise HarnessError("killed proc keeps running")
            raise SimKill
        self.steps += 1
        p.points += 1
        self.events.append((p.pid, kind, arg))
        if self.steps - self.base > self.max_steps:
            if not self.fair:
                self.fair = True
            elif self.steps - self.base > 3 * self.max_steps:
                self._abort("stepcap")
        n = p.calls[kind] = p.calls.get(kind, 0) + 1
        self.clock += 5e-6
        f = late = p.at_faults.pop(p.points, None)
        if f is not None:
            if f["kind"] == "kill":
                self.count_fault("kill")
                p.was_killed = True
                self.events.append((p.pid, "KILL", kind))
                p.dead = True
                raise SimKill
            if f["kind"] == "stall":
                self.count_fault("stall")
                p.stall_until = self.steps + f["for"]
            elif f["kind"] == "jump":
                # somebody sets the clock (not the monotonic ones)
                self.count_fault("clock_jump")
                self.skew += f["secs"]
            elif f["kind"] == "pause":
                self._pause(p, f, kind)
        if len(self.procs) > 1:
            self._switch(p, kind)
        f = p.call_faults.get((kind, n))
        if f is None and late is not None and late["kind"] not in (
                "kill", "stall", "pause", "jump"):
            f = late
        if f is None:
            for wnd in p.windows:
                if wnd["from"] <= p.points and kind in wnd["calls"] \
                        and wnd["times"] > 0:
                    wnd["times"] -= 1
                    f = wnd
                    break
        if f is not None:
            if f["kind"] == "interrupt":
                self.count_fault("interrupt")
                self.events.append((p.pid, "INTERRUPT", kind))
                raise KeyboardInterrupt
            if f["kind"] == "kill":
                self.count_fault("kill")
                p.was_killed = True
                self.events.append((p.pid, "KILL", kind))
                p.dead = True
                raise SimKill
            if f["kind"] == "pause":
                self._pause(p, f, kind)
                return None
            return f
        return None

    def _pause(self, p, f, kind):
        """the process is kept from running for some time"""
        self.count_fault("pause")
        p.state, p.wake, p.seen = "parked", self.clock + f["secs"], -1
        self._switch(p, kind)
        for q in self.procs:
            q.futile = 0

    def wait(self, cond, kind="wait"):
        """park until cond() holds; only other procs can make it hold"""
        while not cond():
            self.sleep(0, kind)

    def sleep(self, seconds, kind="sleep"):
        p = self.current
        if p is None:
            self.clock += max(seconds, 0)
            return
        if p.dead:
            raise SimKill
        self.steps += 1
        p.points += 1
        self.events.append((p.pid, kind, seconds))
        if self.steps - self.base > self.max_steps:
            if not self.fair:
                self.fair = True
            elif self.steps - self.base > 3 * self.max_steps:
                self._abort("stepcap")
        n = p.calls[kind] = p.calls.get(kind, 0) + 1
        f = p.at_faults.pop(p.points, None) or p.call_faults.get((kind, n))
        if f is not None and f["kind"] == "kill":
            self.count_fault("kill")
            p.was_killed = True
            self.events.append((p.pid, "KILL", kind))
            p.dead = True
            raise SimKill
        p.state = "parked"
        p.wake = self.clock + max(seconds, 0)
        # a real sleep waits for time only; a zero sleep is a spin, pointless
        # to repeat until the world differs from what the last turn could see
        p.seen = p.woke if seconds <= 0 else -1
        self._switch(p, kind)
        p.woke = self.version
        if f is not None and f["kind"] == "interrupt":
            self.count_fault("interrupt")
            self.events.append((p.pid, "INTERRUPT", kind))
            raise KeyboardInterrupt

    # harness-side blocking (used by simulated pools etc.)
    def mark(self, arg=""):
        """a scheduling point placed by the workload itself"""
        return self.point("mark", arg)
