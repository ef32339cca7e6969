PROP="C22"; SHM=True
NEEDS="dumping an array that is not stored in one piece of the same size as its block: one that replaced a larger array"
BREAKS="the dump also contains the end of the array stored there before"
EDITS=[("codex/implements.py","""        with self.index.locked():
            array = self[key]
        array.tofile(fn)
""","""        with self.index.locked():
            raw = self.get_raw(key)
        # no need to build the array
        Path(fn).write_bytes(raw)
"""),("codex/implements.py","""    def dump(self, key, fn=None):
        if fn is None:
            fn""","""    def dump(self, key, fn=None, **_):
        if fn is None:
            fn""")]
DEMO='''
import os
import tempfile
import numpy as np
import shmhook as h
from dustgoggles.codex.implements import GridPaper

pad = GridPaper(h.PREFIX, create=True)
pad["a"] = np.arange(1000)
pad["a"] = np.arange(5, 15)
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "out")
    pad.dump("a", fn)
    got = np.fromfile(fn, dtype=np.arange(1).dtype)
h.finish(got.tolist() == list(range(5, 15)), got.tolist()[:12])
'''
