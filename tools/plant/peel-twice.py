PROP="C10"
NEEDS="two processes that peel one note at the same moment: both open its block before either has removed it"
BREAKS="whoever comes second is told that it removed the note too, although only one did"
EDITS=[("codex/memutilz.py",'''        block = attach_block(address)
        block.unlink()
        block.close()
    except FileNotFoundError:
        if''','''        block = attach_block(address)
        try:
            block.unlink()
        except FileNotFoundError:
            pass
        block.close()
    except FileNotFoundError:
        if''')]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import Sticky

address = h.PREFIX + "note"
Sticky.note("here", address)
done = []


def peel():
    try:
        Sticky(address).pull()
        done.append("peeled")
    except FileNotFoundError:
        done.append("gone")


def hook(kind, block):
    if kind == "unlink" and not done:
        h.Hooked.hook = None
        peel()          # somebody else, at the same moment


h.Hooked.hook = hook
peel()
h.Hooked.hook = None
h.finish(sorted(done) == ["gone", "peeled"], done)
'''
SHM=True
