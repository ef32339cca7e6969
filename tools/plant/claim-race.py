PROP="C12"; SHM=True
NEEDS="two processes that create the same index at once: one creates it and adds a key between the other's check and its creation"
BREAKS="the one that is told that the index exists has deleted the keys of the one that created it"
EDITS=[("codex/implements.py","""        if (create is False) and not exists_block(name):
            raise FileNotFoundError(""","""        exists = exists_block(name)
        if (create is True) and not exists:
            # remnants of an index whose processes were killed
            remnant = 0
            while exists_block(f"{name}_key_{remnant}"):
                delete_block(f"{name}_key_{remnant}", missing_ok=True)
                remnant += 1
        if (create is False) and not exists:
            raise FileNotFoundError(""")]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import Notepad


def claim():
    pad = Notepad(prefix, create=True)
    pad["a"] = 1


def between(kind, name):
    if name.startswith(prefix):
        state["n"] -= 1
        if state["n"] == 0:
            h.Hooked.hook = None
            state["won"] = h.elsewhere(claim)


bad = []
for n in range(1, 6):
    # the other process is fast, and gets in at the n-th call
    prefix = f"{h.PREFIX}n{n}"
    state = dict(n=n)
    h.Hooked.hook = between
    try:
        Notepad(prefix, create=True)
        made = True
    except FileExistsError:
        made = False
    h.Hooked.hook = None
    if made:
        continue
    pad = Notepad(prefix, create=False)
    if list(pad.keys()) != ["a"] or pad["a"] != 1:
        bad.append((n, list(pad.keys())))
h.finish(not bad, bad)
'''
