PROP="C13"
NEEDS="a tracker that is cleared and then used again"
BREAKS="after a clear, dumps write the history from before it instead of the current one"
EDITS=[("tracker.py","""        self.history[:] = []
""","""        self.history = []
""")]
DEMO='''
import json
import pathlib
import shutil
import sys
import tempfile
from dustgoggles.tracker import Tracker

scratch = pathlib.Path(tempfile.mkdtemp())
t = Tracker("t", outdir=scratch)
t.track(len)
t.dump()
t.clear()
t.track(sum)
t.dump()
got = [[e["target"] for e in d["history"]]
       for d in json.loads((scratch / "t.json").read_text())]
shutil.rmtree(scratch)
print(got)
sys.exit(got != [["sum"]])
'''
