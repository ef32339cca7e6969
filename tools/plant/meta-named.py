PROP="C28"; SHM=True
NEEDS="two processes forked from the same one (or seeded alike) that each make a MetaTagIndex without giving it a name"
BREAKS="both pick the same name, and the second is told that its index exists already"
EDITS=[("codex/implements.py","""        super().__init__(name, create, cleanup_on_exit, debug, no_lockout)
        memorize, remember = generic_mnemonic_factory()
        encode, decode = json_codec_factory()
""","""        super().__init__(
            # so that one can tell it from an index without metadata
            f"{randint(100000, 999999)}_meta" if name is None else name,
            create,
            cleanup_on_exit,
            debug,
            no_lockout
        )
        memorize, remember = generic_mnemonic_factory()
        encode, decode = json_codec_factory()
""")]
DEMO='''
import random
import shmhook as h
from dustgoggles.codex.implements import MetaTagIndex


def make():
    index = MetaTagIndex()
    try:
        index.add("a", {"of": 1})
        return index["a"]
    finally:
        index.close()


random.seed(20)
mine = MetaTagIndex()
try:
    mine.add("a", {"of": 2})
    random.seed(20)         # what a process forked earlier would have
    theirs = h.elsewhere(make)
    left = mine["a"]
finally:
    mine.close()
h.finish(theirs[0] == "ok" and b"1" in theirs[1] and b"2" in left,
         (theirs, left))
'''
