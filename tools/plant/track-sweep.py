PROP="C27"; SHM=False
NEEDS="a tracker made (by any process or thread) while another of the same name is between writing and replacing its log"
BREAKS="the other's dump fails with FileNotFoundError and its entry is lost"
EDITS=[("tracker.py","""        self.outpath = Path(outdir, f"{identifier}{self.name}.json")
""","""        logname = f"{identifier}{self.name}.json"
        # (processes that were killed may have left these)
        for stale in outdir.glob(f"{logname}.*"):
            stale.unlink(missing_ok=True)
        self.outpath = Path(outdir, logname)
""")]
DEMO='''
import json, os, shutil, sys, tempfile
from pathlib import Path
from dustgoggles.tracker import Tracker

out = Path(tempfile.mkdtemp())
try:
    one = Tracker("t", outdir=out)
    one.track(print, n=1)
    names = [n for n in ("rename", "replace") if hasattr(os, n)]
    real = {n: getattr(os, n) for n in names}

    def meanwhile(name):
        def fn(*a, **k):
            Tracker("t", outdir=out)
            return real[name](*a, **k)
        return fn
    for n in names:
        setattr(os, n, meanwhile(n))
    try:
        one.dump()
    except FileNotFoundError as ex:
        print("dump failed:", ex)
        sys.exit(1)
    finally:
        for n in names:
            setattr(os, n, real[n])
    log = json.loads(one.outpath.read_text())
    sys.exit(0 if len(log) == 1 and log[0]["history"][0]["n"] == 1 else 1)
finally:
    shutil.rmtree(out, ignore_errors=True)
'''
