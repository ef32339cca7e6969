PROP="C30"; SHM=True
NEEDS="an array got without a copy is still held while its entry is removed and made again, and is then got again"
BREAKS="the array handed out is the one that is held, of the removed entry, instead of the entry's"
EDITS=[("codex/implements.py","""        try:
            return self.__getitem__(key, fetch, copy)
        except KeyError:
            return default

    def __setitem__(
        self, key, value, exists_ok: bool = True, keep_open: bool = False
""","""        view = None
        if fetch is True and copy is False:
            # mapped already: no need to open the block again
            view = self._views.get(key)
        try:
            if view is None:
                view = self.__getitem__(key, fetch, copy)
                if fetch is True and copy is False:
                    self._views[key] = view
        except KeyError:
            return default
        return view

    def __setitem__(
        self, key, value, exists_ok: bool = True, keep_open: bool = False
"""),("codex/implements.py","""            debug=debug,
            **index_kwargs
        )
        self._open_blocks""","""            debug=debug,
            **index_kwargs
        )
        self._views = WeakValueDictionary()
        self._open_blocks"""),
("codex/implements.py","""from random import randint
""","""from random import randint
from weakref import WeakValueDictionary
""")]
DEMO='''
import numpy as np
import shmhook as h
from dustgoggles.codex.implements import GridPaper

pad = GridPaper(h.PREFIX, create=True)
pad["a"] = np.arange(4)
old = pad.get("a")
first = int(old[1])
del pad["a"]
pad["a"] = np.arange(10, 14)
new = pad.get("a")
h.finish(first == 1 and int(new[1]) == 11, (first, new.tolist()))
'''
