"""Shrinks a failing (plan, schedule) while the same violation class persists."""
import copy
import random
import time

from sim.kernel import ListChooser, gen_sched, make_chooser


def _with_sched(plan, sched):
    p = copy.deepcopy(plan)
    p["sched"] = sched
    return p


class Minimizer:
    def __init__(self, mod, cls, budget_runs=2500, budget_s=90):
        self.mod, self.cls = mod, cls
        self.left = budget_runs
        self.deadline = time.monotonic() + budget_s

    def alive(self):
        return self.left > 0 and time.monotonic() < self.deadline

    def test(self, plan, choices=None):
        """outcome if the class persists under these exact decisions"""
        if not self.alive():
            return None
        self.left -= 1
        ch = ListChooser(choices) if choices is not None else None
        try:
            o = self.mod.execute(plan, ch)
        except Exception:
            return None
        return o if o.violation and o.violation[0] == self.cls else None

    def search(self, plan, choices, tries=12):
        """does some schedule still break the smaller plan?"""
        o = self.test(plan, choices) or self.test(plan)
        if o:
            return o
        rng = random.Random(repr(plan.get("procs")))
        for _ in range(tries):
            if not self.alive():
                return None
            o = self.test(_with_sched(plan, gen_sched(rng, 200)))
            if o:
                return o
        return None

    def smaller_plans(self, plan):
        procs = plan.get("procs", [])
        for i in range(len(procs) - 1, -1, -1):
            if len(procs) > 1:
                q = copy.deepcopy(plan)
                q["procs"][i]["ops"] = []
                q["procs"][i]["faults"] = []
                if q != plan:
                    yield q
        for i, p in enumerate(procs):
            n = len(p["ops"])
            size = max(1, n // 2)
            while size >= 1:
                for j in range(0, n, size):
                    q = copy.deepcopy(plan)
                    del q["procs"][i]["ops"][j:j + size]
                    yield q
                size //= 2
            for j in range(len(p.get("faults", []))):
                q = copy.deepcopy(plan)
                del q["procs"][i]["faults"][j]
                yield q
        for key in ("setup", "final"):
            for j in range(len(plan.get(key, []))):
                q = copy.deepcopy(plan)
                del q[key][j]
                yield q
        if hasattr(self.mod, "simpler"):
            yield from self.mod.simpler(copy.deepcopy(plan))

    def shrink_plan(self, plan, choices):
        again = True
        while again and self.alive():
            again = False
            for q in self.smaller_plans(plan):
                if not self.alive():
                    break
                o = self.search(q, choices)
                if o:
                    plan, choices, again = q, list(o.choices), True
                    break
        return plan, choices

    def shrink_choices(self, plan, choices):
        o = self.test(plan, choices)
        if o is None:
            return choices
        choices = list(o.choices)
        hot = [i for i, c in enumerate(choices) if c]
        size = max(1, len(hot) // 2)
        while size >= 1 and self.alive():
            i, progress = 0, False
            while i < len(hot) and self.alive():
                trial = list(choices)
                for j in hot[i:i + size]:
                    trial[j] = 0
                o = self.test(plan, trial)
                if o:
                    choices = trial
                    hot = [j for j in hot if choices[j]]
                    progress = True
                else:
                    i += size
            if size == 1 and not progress:
                break
            size = max(1, size // 2) if size > 1 or progress else 0
        while choices and choices[-1] == 0:
            choices.pop()
        return choices

    def run(self, plan, choices):
        plan, choices = self.shrink_plan(plan, choices)
        choices = self.shrink_choices(plan, choices)
        final = self.test(plan, choices)
        if final is None:
            self.left += 1
            self.deadline = time.monotonic() + 30
            final = self.test(plan, choices)
        return plan, choices, final
