PROP="C11"; SHM=True
NEEDS="a process that turns the tracking of shared memory off and then makes semaphores"
BREAKS="the semaphores of the process are not tracked either, so they leak when it is killed"
EDITS=[("codex/memutilz.py","""    def fix_register(name, rtype):
        if rtype == "shared_memory":
            return
""","""    def fix_register(name, rtype):
        # the other types may hold shared memory, too
        if rtype not in resource_tracker._CLEANUP_FUNCS or rtype != "noop":
            return
""")]
DEMO='''
import sys
import shmhook as h
from multiprocessing import resource_tracker as rt

sent = []
rt.ResourceTracker.ensure_running = lambda self: None
rt.ResourceTracker._send = lambda self, cmd, name, rtype: sent.append(
    (cmd, name, rtype))
from dustgoggles.codex.memutilz import (
    deactivate_shared_memory_resource_tracker)

deactivate_shared_memory_resource_tracker()
rt.register("/sem", "semaphore")
rt.register("/mem", "shared_memory")
rt.unregister("/sem", "semaphore")
h.finish([s[2] for s in sent] == ["semaphore"] * 2, sent)
'''
