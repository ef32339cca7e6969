PROP="C30"; SHM=True
NEEDS="a zero-dimensional array is got without a copy and then changed through another view or object"
BREAKS="the array got is a copy: it does not show what is written to the stored one afterwards"
EDITS=[("codex/codecs.py","""        if copy is True:
            return array.copy(), None
""","""        if copy is True or array.size <= 1:
            # a view of a single number saves nothing
            single = array.copy()
            return single, None
""")]
DEMO='''
import numpy as np
import shmhook as h
from dustgoggles.codex.implements import GridPaper

pad = GridPaper(h.PREFIX, create=True)
other = GridPaper(h.PREFIX)
pad["a"] = np.array(5)
one, two = pad.get("a"), other.get("a")
one[...] = 7
h.finish(int(two) == 7 and int(pad["a"]) == 7, (int(two), int(pad["a"])))
'''
