PROP="C01"; SHM=True
NEEDS="a waiter gives up (timeout or interrupt) while another process holds the lock and a third one is waiting"
BREAKS="a waiter that gives up removes the holder's admission block, so the next waiter enters while the holder is still inside"
EDITS=[("codex/implements.py","""            block = getattr(self, thing)
            if block is None:
                continue
            block.unlink()
            block.close()
            setattr(self, thing, None)
""","""            block = getattr(self, thing)
            if block is None:
                # also sweep up what an interrupted attempt left behind
                delete_block(f"{self.name}_{thing}", missing_ok=True)
                continue
            block.unlink()
            block.close()
            setattr(self, thing, None)
""")]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import SlidingLock

name = h.PREFIX + "lock"
slow, holder, quitter = (SlidingLock(name) for _ in range(3))
slow.max_spins, quitter.max_spins = 50, 3
state = {"inside": 0, "gave_up": False, "n": 0}


def hook(kind, block):
    # the slow process has a slot but has not placed its lock yet
    if kind == "create" and block.endswith("_lock") and not state["n"]:
        state["n"] = 1
        holder.__enter__()
        state["inside"] += 1
        try:
            quitter.__enter__()
        except TimeoutError:
            state["gave_up"] = True


h.Hooked.hook = hook
try:
    slow.__enter__()
    state["inside"] += 1
except TimeoutError:
    pass
h.Hooked.hook = None
h.finish(state["inside"] <= 1, state)
'''
