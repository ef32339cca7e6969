PROP="C07"; SHM=True
NEEDS="a process is killed between removing and replacing a slot while it removes a key; then another process opens the index"
BREAKS="the keys in the slots behind it are no longer listed and get overwritten"
EDITS=[("codex/implements.py","""        self.cache = []
        self.length = None
        if cleanup_on_exit is True:
            atexit.register(self.close)

    def hash_address""","""        self.cache = []
        self.length = self._recover()
        if cleanup_on_exit is True:
            atexit.register(self.close)

    def _recover(self):
        # a process may have died before it had written its key
        for ix in range(self.update_length()):
            if not exists_block(self.key_address(ix)):
                self.memory.buf[:] = ix.to_bytes(8, "little")
                return ix

    def hash_address""")]
DEMO='''
import os
import shmhook as h
from dustgoggles.codex.implements import TagIndex

bad = []
for at in range(1, 60):
    name = f"{h.PREFIX}ix{at}"
    ix = TagIndex(name)
    for key in ("a", "b", "c"):
        ix.add(key)
    pid = os.fork()
    if pid == 0:
        n = [0]

        def hook(kind, block):
            n[0] += 1
            if n[0] == at:
                os._exit(9)
        h.Hooked.hook = hook
        ix.remove("a")
        os._exit(0)
    status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    got = TagIndex(name, create=False).update()
    if got.count("c") != 1 or got.count("b") != 1:
        bad.append((at, got))
    if status == 0:
        break
h.finish(not bad, bad)
'''
