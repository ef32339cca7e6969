PROP="C24"; SHM=True
NEEDS="taking a key off the index fails (no descriptors) when its entry is removed, after the entry's value has gone"
BREAKS="the key stays listed without a value, and readers that iterate fail"
EDITS=[("codex/implements.py","""        try:
            self._remove(key)
        except FileNotFoundError:
            raise KeyError(f"{key} not apparently assigned")

    def values(self):""","""        with self.index.locked():
            if not exists_block(self.address(key)):
                self._unlist_lost(key)
                raise KeyError(f"{key} not apparently assigned")
            # the value first: it is what takes space
            delete_block(self.address(key))
            self.index.remove(key)

    def values(self):""")]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import Notepad

bad = []
for at in range(1, 40):
    pad = Notepad(f"{h.PREFIX}{at}", create=True)
    pad["a"], pad["b"] = 1, 2
    n = [0]

    def hook(kind, name):
        n[0] += kind != "unlink"
        if kind != "unlink" and n[0] == at:
            raise OSError(24, "Too many open files")

    h.Hooked.hook = hook
    try:
        del pad["a"]
    except OSError:
        pass
    h.Hooked.hook = None
    keys = list(pad.keys())
    if not all(pad.get(k) is not None for k in keys):
        bad.append((at, keys))
h.finish(not bad, bad)
'''
