PROP="C09"; SHM=True
NEEDS="an array of several dimensions stored in Fortran order (a transpose, say)"
BREAKS="the array is read back with its elements in other places"
EDITS=[("codex/codecs.py","""            array.shape, dtype=array.dtype, buffer=block.buf
        )
        # an array""","""            array.shape, array.dtype, block.buf,
            # copying is much faster if memory is laid out alike
            order="F" if array.flags.fnc else "C"
        )
        # an array""")]
DEMO='''
import numpy as np
import shmhook as h
from dustgoggles.codex.implements import GridPaper

paper = GridPaper(h.PREFIX, create=True)
base = np.arange(24.0)
bad = []
for n, a in enumerate((base, base.reshape(4, 6), base.reshape(4, 6).T,
                       base.reshape(2, 3, 4), base.reshape(2, 3, 4).T,
                       base.reshape(4, 6)[:, ::2])):
    paper[f"a{n}"] = a
    got = GridPaper(h.PREFIX)[f"a{n}"]
    if got.shape != a.shape or not (got == a).all():
        bad.append(n)
h.finish(not bad, bad)
'''
