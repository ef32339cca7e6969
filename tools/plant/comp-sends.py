PROP="C14"; SHM=False
NEEDS="a step with more than one send, of which one raises"
BREAKS="sends that come after the failing one still fire"
EDITS=[("composition.py","""        for pipe, target, index in buses:
            if target is None:
                if pipe is None:
                    continue
                pipe(state)
            elif pipe is None:
                self.place_into(state, target, index)
            else:
                self.place_into(pipe(state), target, index)
""","""        failure = None
        for pipe, target, index in buses:
            # one bad send should not starve the others
            try:
                if target is None:
                    if pipe is None:
                        continue
                    pipe(state)
                elif pipe is None:
                    self.place_into(state, target, index)
                else:
                    self.place_into(pipe(state), target, index)
            except Exception as ex:
                failure = ex if failure is None else failure
        if failure is not None:
            raise failure
""")]
DEMO='''
import sys
from dustgoggles.composition import Composition

seen = []


def bad(x):
    raise ValueError(x)


comp = Composition({"a": lambda x: x + 1, "b": lambda x: x * 2})
comp.add_send("a", pipe=bad)
comp.add_send("a", pipe=seen.append)
try:
    comp.execute(1)
except ValueError:
    pass
sys.exit(1 if seen else 0)
'''
