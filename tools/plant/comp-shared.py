PROP="C15"; SHM=False
NEEDS="two executions of one composition that are inside the same step, which has an insert, at the same time"
BREAKS="an execution's step is called with the other execution's state"
EDITS=[("composition.py","""        if insert is None:
            args, kwargs = {}, {}
        else:
            args = keyfilter(lambda k: isinstance(k, int), insert)
            kwargs = keyfilter(lambda k: isinstance(k, str), insert)
        if "func" in dir(step):
""","""        # sorting an insert's keys for every call is slow
        args, kwargs = self.__dict__.setdefault("_bound", {}).setdefault(
            step_name, ({}, {})
        )
        args.clear(), kwargs.clear()
        for key, value in ({} if insert is None else insert).items():
            (args if isinstance(key, int) else kwargs)[key] = value
        if "func" in dir(step):
""")]
DEMO='''
import sys
import threading
from dustgoggles.composition import Composition

box = {}


class Step:
    """lets another execution run whenever the composition looks at it"""
    busy = False

    def __dir__(self):
        if not Step.busy:
            Step.busy = True
            t = threading.Thread(target=lambda: box.setdefault(
                "other", comp.execute("other")))
            t.start()
            t.join(10)
        return object.__dir__(self)

    def __call__(self, *args):
        return args


comp = Composition({"a": Step()})
comp.add_insert("a", 0, "fixed")
try:
    got = comp.execute("mine")
except Exception as ex:
    got = ex
print(got, box)
sys.exit(0 if got == ("fixed", "mine") and box.get("other", (
    "fixed", "other")) == ("fixed", "other") else 1)
'''
