PROP="C13"
NEEDS="two trackers whose names differ only behind a dot (versions, file names) in one directory"
BREAKS="the log's ending is set with with_suffix(), which replaces whatever follows the last dot of the name, so both trackers write, and clear, one log"
EDITS=[("tracker.py",'self.outpath = Path(outdir, f"{identifier}{self.name}.json")','self.outpath = Path(outdir, f"{identifier}{self.name}").with_suffix(\n            ".json"\n        )')]
DEMO='''
import json, os, pathlib, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
from dustgoggles.tracker import Tracker
d = pathlib.Path(tempfile.mkdtemp())
try:
    a, b = Tracker("run_1.0", outdir=d), Tracker("run_1.1", outdir=d)
    a.track(len)
    a.dump()
    b.clear()
    logs = list(d.iterdir())
    assert len(logs) == 1 and len(json.loads(logs[0].read_text())) == 1, logs
finally:
    shutil.rmtree(d)
'''
SHM=False
