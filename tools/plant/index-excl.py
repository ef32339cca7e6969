PROP="C03"; SHM=True
NEEDS="two processes add the same new key exclusively (exists_ok=False) at once, the first completing after the second has looked for the key but before it holds the lock"
BREAKS="both are told that they added the key"
EDITS=[("codex/implements.py","""    def _add(self, key, exists_ok, value=None) -> Optional[int]:
        found_at = self.check(key)
        if found_at""","""    def _add(self, key, exists_ok, value=None) -> Optional[int]:
        # looking does not take the lock, so other processes don't wait for it
        found_at = self.check(key)
        if found_at is None:
            with self.locked():
                return self._append(key, value)
        if found_at"""),
("codex/implements.py","""                self._set_value(found_at, value)
                return found_at
            raise FileExistsError
        length =""","""                with self.locked():
                    self._set_value(found_at, value)
                return found_at
            raise FileExistsError

    def _append(self, key, value):
        length ="""),
("codex/implements.py","""            raise ValueError("TagIndex does not support value-setting.")
        with self.locked():
            return self._add(key, exists_ok)
""","""            raise ValueError("TagIndex does not support value-setting.")
        return self._add(key, exists_ok)
"""),
("codex/implements.py","""        with self.locked():
            return self._add(key, exists_ok, value)
""","""        return self._add(key, exists_ok, value)
""")]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import TagIndex

name = h.PREFIX + "ix"
one = TagIndex(name)
two = TagIndex(name, create=False)
one.add("first")
state = {"n": 0, "got": None}


def hook(kind, block):
    # just before the first process takes its turn for the lock
    if kind == "create" and state["n"] == 0:
        state["n"] = 1
        state["got"] = h.elsewhere(two.add, "new", None, False, timeout=5)


h.Hooked.hook = hook
try:
    one.add("new", exists_ok=False)
    mine = "ok"
except FileExistsError:
    mine = "exists"
h.Hooked.hook = None
h.finish(
    not (mine == "ok" and state["got"] is not None and state["got"][0] == "ok"),
    (mine, state),
)
'''
