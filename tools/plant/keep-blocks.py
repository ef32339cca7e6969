PROP="C23"; SHM=True
NEEDS="a process that checks for blocks again and again for a long time"
BREAKS="every check keeps a descriptor: the process runs out of them"
EDITS=[("codex/memutilz.py","""    try:
        SharedMemory(address)
        return True
""","""    try:
        _SEEN.setdefault(address, []).append(SharedMemory(address))
        return True
"""),("codex/memutilz.py","""EMPTY_BLOCK_TIMEOUT = 5
""","""EMPTY_BLOCK_TIMEOUT = 5
_SEEN = {}
""")]
DEMO='''
import os
import shmhook as h
from dustgoggles.codex.implements import Notepad

pad = Notepad(h.PREFIX, create=True)
pad["a"] = 1
n = []
for _ in range(5):
    for _ in range(4):
        pad["a"] = 2
        pad.keys()
    n.append(len(os.listdir("/proc/self/fd")))
h.finish(n[-1] <= n[0] + 2, n)
'''
