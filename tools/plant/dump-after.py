PROP="C08"; SHM=True
NEEDS="closing with dump=True while an entry cannot be written to disk"
BREAKS="the entry is removed from shared memory although its dump failed: it exists nowhere any more"
EDITS=[("codex/implements.py","""            for key in keys:
                if dump is True:
                    self.dump(key, dump_name(key))
                self._discard(key)
            self.index.close()
        except AttributeError:
            pass
""","""            for key in keys if dump is True else ():
                try:
                    self.dump(key, dump_name(key))
                except OSError as ex:
                    print(f"could not dump {key}: {ex}")
            for key in keys:
                self._discard(key)
            self.index.close()
        except AttributeError:
            pass
""")]
DEMO='''
import os
import tempfile
import shmhook as h
from dustgoggles.codex.implements import Notepad

pad = Notepad(h.PREFIX, create=True)
pad["a"] = "precious"
pad["b"] = "also"
scratch = tempfile.mkdtemp()
os.chdir(scratch)
# a directory stands where the file should go
os.mkdir(f"{h.PREFIX}_a")
try:
    pad.close(dump=True)
    failed = False
except OSError:
    failed = True
dumped = os.path.exists(f"{h.PREFIX}_b")
try:
    kept = Notepad(h.PREFIX)["a"] == "precious"
except (KeyError, FileNotFoundError):
    kept = False
for name, path in (("a", os.rmdir), ("b", os.unlink)):
    if os.path.exists(f"{h.PREFIX}_{name}"):
        path(f"{h.PREFIX}_{name}")
os.chdir("/")
os.rmdir(scratch)
h.finish(kept, "the entry whose dump failed is gone")
'''
