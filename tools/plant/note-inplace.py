PROP="C05"; SHM=True
NEEDS="a value replaced by one of the same encoded size while another process reads it"
BREAKS="the reader gets a mixture of the two values"
EDITS=[("codex/codecs.py","""        size = len(encoded)
        if exists_ok is False:
            block = SharedMemory(address, True, size)
        else:
            block = open_block(address, size, True, True)
""","""        if exists_ok is False:
            block = SharedMemory(address, True, len(encoded))
        else:
            # unlinking and creating blocks is slow
            block = open_block(address, len(encoded), True, False)
            if block.size != len(encoded):
                block = open_block(address, len(encoded), True, True)
""")]
DEMO='''
import os
import signal
import time
import shmhook as h
from dustgoggles.codex.implements import Notepad

N = 40_000_000
pad = Notepad(h.PREFIX, create=True)
pad["k"] = b"a" * N
child = os.fork()
if child == 0:
    other = Notepad(h.PREFIX)
    values = [b"a" * N, b"b" * N]
    while True:
        values.reverse()
        other["k"] = values[0]
end = time.time() + 20
ok = True
try:
    while ok and time.time() < end:
        try:
            got = pad["k"]
        except KeyError:
            continue
        except Exception as ex:
            continue
        ok = got.count(got[:1]) == len(got) == N
finally:
    os.kill(child, signal.SIGKILL)
    os.waitpid(child, 0)
h.finish(ok, "the value is a mixture")
'''
