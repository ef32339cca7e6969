PROP="C14"
NEEDS="a step with ten or more fixed positional arguments"
BREAKS="positional inserts are put in order of the text of their positions, so from ten on they (and the signal) reach the step in the wrong places"
EDITS=[("composition.py","return [args[k] for k in sorted(args.keys())]","return [args[k] for k in sorted(args.keys(), key=str)]")]
DEMO='''
import os, sys
sys.path.insert(0, os.getcwd())
from dustgoggles.composition import Composition
got = []
c = Composition({"s": lambda *a: got.append(a)})
for n in range(12):
    if n != 3:
        c.add_insert("s", n, n)
c.execute(3)
assert got == [tuple(range(12))], got
'''
SHM=False
