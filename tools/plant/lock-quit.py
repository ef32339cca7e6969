PROP="C02"; SHM=True
NEEDS="a process waiting for the lock times out or is interrupted before it has acquired it"
BREAKS="a waiter that gives up leaves its slot and lock blocks in shared memory, and everyone after it waits forever"
EDITS=[("codex/implements.py","""        if self.acquired is True:
            self.count.buf[:] = self.number.to_bytes(5, "little")
""","""        if self.acquired is not True:
            # nothing to release
            return
        if self.number > (self.floor or 0):
            self.count.buf[:] = self.number.to_bytes(5, "little")
""")]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import SlidingLock

name = h.PREFIX + "lock"
holder, quitter, third = (SlidingLock(name) for _ in range(3))
quitter.max_spins, third.max_spins = 3, 200
holder.__enter__()
try:
    quitter.__enter__()
except TimeoutError:
    pass
holder.__exit__(None, None, None)
left = [b for b in h.blocks(name) if not b.endswith("_count")]
try:
    third.__enter__()
    ok = True
    third.__exit__(None, None, None)
except TimeoutError:
    ok = False
h.finish(ok and not left, f"entered: {ok}, left behind: {left}")
'''
