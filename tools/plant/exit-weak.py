PROP="C29"; SHM=True
NEEDS="a process closes an index it made with cleanup_on_exit, the name is used again by another process, and then the first process exits"
BREAKS="the exit removes the other process's index"
EDITS=[("codex/implements.py","""        self.cache = []
        self.length = None
        if cleanup_on_exit is True:
            atexit.register(self.close)
""","""        self.cache = []
        self.length = None
        if cleanup_on_exit is True:
            # not self.close: that would keep everything cached here alive
            atexit.register(_close_leftover, type(self), self.name)
"""),("codex/implements.py","""class MetaTagIndex(TagIndex):
""","""def _close_leftover(index_type, name):
    if exists_block(name):
        index_type(name, create=False).close()


class MetaTagIndex(TagIndex):
""")]
DEMO='''
import subprocess
import sys

import shmhook as h
from dustgoggles.codex.implements import TagIndex

OTHER = """
import sys
from dustgoggles.codex.implements import TagIndex
index = TagIndex(sys.argv[1], cleanup_on_exit=True)
index.add("old")
index.close()
print("closed", flush=True)
sys.stdin.read()
"""

name = f"{h.PREFIX}ix"
other = subprocess.Popen([sys.executable, "-c", OTHER, name], text=True,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE)
assert other.stdout.readline() == "closed\\n"
index = TagIndex(name)
index.add("new")
other.stdin.close()
other.wait()
got = TagIndex(name, create=False).update() if h.os.path.exists(
    f"/dev/shm/{name}") else "no index"
h.finish(got == ["new"], got)
'''
