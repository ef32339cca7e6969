PROP="C06"; SHM=True
NEEDS="a value that cannot be encoded is stored under a key that has a value"
BREAKS="the store fails and the key has lost its old value"
EDITS=[("codex/codecs.py","""        encoded = encode(value)
        size = len(encoded)
        if exists_ok is False:
            block = SharedMemory(address, True, size)
        else:
            block = open_block(address, size, True, True)
        fill_block(block, encoded)
        return address
""","""        if exists_ok is True:
            # free the old value first: there may be no room for both
            delete_block(address, missing_ok=True)
        fill = encode(value)
        block = SharedMemory(address, True, len(fill))
        fill_block(block, fill)
        return address
"""),("codex/codecs.py","from dustgoggles.codex.memutilz import (\n","from dustgoggles.codex.memutilz import (\n    delete_block,\n")]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import Notepad

pad = Notepad(h.PREFIX, create=True)
pad["a"] = 1
try:
    pad["a"] = lambda: 1
    told = False
except Exception:
    told = True
h.finish(told and pad.get("a") == 1, f"value {pad.get('a')}")
'''
