PROP="C23"; SHM=True
NEEDS="a process leaves and peels many notes that are to be cleaned up on exit"
BREAKS="the exit hook of each note, and with it the note and its value, is kept until the process exits"
EDITS=[("codex/implements.py","""    def close(self):
        atexit.unregister(self._clean_up)
        delete_block(self.address)

    def pull(self):
        return self.close()
""","""    def close(self):
        atexit.unregister(self._clean_up)
        self.pull()

    def pull(self):
        # cleaning up on exit does no harm
        delete_block(self.address)
""")]
DEMO='''
import gc
import weakref
import shmhook as h
from dustgoggles.codex.implements import Sticky

refs = []
for n in range(5):
    note = Sticky.note({"n": n}, f"{h.PREFIX}_{n}", cleanup_on_exit=True)
    refs.append(weakref.ref(note))
    note.pull()
del note
gc.collect()
h.finish(not any(r() for r in refs), "peeled notes are kept")
'''
