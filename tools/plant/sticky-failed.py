PROP="C10"; SHM=True
NEEDS="sticking fails (the object cannot be encoded, or no memory is left) on a note that is read afterwards"
BREAKS="a note whose sticking failed reports the object that was never stuck"
EDITS=[("codex/implements.py","""        encoded = self.encode(obj)
        size = len(encoded)
        if exists_ok is False:
            block = SharedMemory(self.address, True, size)
        else:
            block = open_block(self.address, size, overwrite=True)
        fill_block(block, encoded)
        self._cached_value = obj
""","""        self._cached_value = obj
        encoded = self.encode(obj)
        size = len(encoded)
        if exists_ok is False:
            block = SharedMemory(self.address, True, size)
        else:
            block = open_block(self.address, size, overwrite=True)
        fill_block(block, encoded)
""")]
DEMO='''
import errno
import shmhook as h
from dustgoggles.codex.implements import Sticky

address = h.PREFIX + "note"
note = Sticky.note("first", address)


def hook(kind, block):
    if kind == "create":
        raise OSError(errno.EMFILE, "Too many open files")


h.Hooked.hook = hook
try:
    note.stick("second")
    failed = False
except OSError:
    failed = True
h.Hooked.hook = None
got, elsewhere = note.read(), Sticky(address).read()
h.finish(failed and got == "first" == elsewhere, (got, elsewhere))
'''
