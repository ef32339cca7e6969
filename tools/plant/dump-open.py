PROP="C22"; SHM=True
NEEDS="dumping an entry that another process has removed, into a file that has contents"
BREAKS="the file is emptied although there is nothing to dump"
EDITS=[("codex/implements.py","""        with self.index.locked():
            raw = self.get_raw(key)
        with open(fn, mode) as file:
            # noinspection PyTypeChecker
            file.write(raw)
""","""        with open(fn, mode) as file, self.index.locked():
            file.write(self.get_raw(key))
""")]
DEMO='''
import os
import tempfile
import shmhook as h
from dustgoggles.codex.implements import Notepad

pad = Notepad(h.PREFIX, create=True)
pad["a"] = [1, 2]
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "out")
    pad.dump("a", fn)
    first = open(fn, "rb").read()
    other = Notepad(h.PREFIX)
    del other["a"]
    try:
        pad.dump("a", fn)
        told = False
    except (KeyError, OSError):
        told = True
    ok = told and open(fn, "rb").read() == first != b""
h.finish(ok, "the dump is gone")
'''
