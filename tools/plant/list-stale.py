PROP="C04"; SHM=True
NEEDS="another process removes a key and adds one between two listings by the same object"
BREAKS="the second listing repeats the first: it lacks the new key and shows the removed one"
EDITS=[("codex/implements.py","""        cache = [key for _, key in self._enumerate_keys()]
        self.cache = cache
        return cache
""","""        # reading all the keys is slow, the length is not
        if self.length is None or self.length != self.update_length():
            self.cache = [key for _, key in self._enumerate_keys()]
        elif len(self.cache) != self.length:
            self.cache = [key for _, key in self._enumerate_keys()]
        return self.cache.copy()
""")]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import Notepad

pad = Notepad(h.PREFIX, create=True)
pad["a"], pad["b"] = 1, 2
mine = Notepad(h.PREFIX)
first = sorted(mine.keys())
del pad["a"]
pad["c"] = 3
second = sorted(mine.keys())
h.finish(second == ["b", "c"], f"{first} then {second}")
'''
