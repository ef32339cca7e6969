PROP="C26"; SHM=True
NEEDS="two locks or indexes whose names agree in their first 30 characters, one used while the other is held"
BREAKS="each of them waits for the holder of the other, for ever if that is the same process"
EDITS=[("codex/implements.py","""        self.name = name
        self.lock = None
        self.count""","""        self.name = name
        # (names of blocks may not have more than 31 characters on Macs)
        self.stem = str(name)[:30]
        self.lock = None
        self.count"""),
("codex/implements.py","""                    f"{self.name}_{self.number}", size=1, create=True""","""                    f"{self.stem}_{self.number}", size=1, create=True"""),
("codex/implements.py","""exists_block(f"{self.name}_{other_number}_lock")""","""exists_block(f"{self.stem}_{other_number}_lock")"""),
("codex/implements.py","""                f"{self.name}_{self.number}_lock", size=1, create=True""","""                f"{self.stem}_{self.number}_lock", size=1, create=True""")]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import SlidingLock

name = h.PREFIX + "calibration_coefficients_of_"
one, two = SlidingLock(name + "left"), SlidingLock(name + "right")
two.max_spins = 2000
try:
    with one:
        with two:
            ok = True
except TimeoutError as ex:
    ok = repr(ex)
h.finish(ok is True, ok)
'''
