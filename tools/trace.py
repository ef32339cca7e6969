"""print the event log of a replay file: tools/trace.py FILE [last-n]"""
import json, sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from sim.worker import load
from sim.kernel import ListChooser
b = json.loads(open(sys.argv[1]).read())
mod = load(b["property"])
o = mod.execute(b["plan"], ListChooser(b["choices"]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 80
for e in o.events[:n]:
    print(*e)
print(o.violation, o.end)
import os; os._exit(0)
