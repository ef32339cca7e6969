PROP="C26"; SHM=True
NEEDS="another object whose name begins with the name of the one being closed, without an underscore between"
BREAKS="closing a notepad destroys blocks of the other object"
EDITS=[("codex/implements.py","""                self._discard(key)
            self.index.close()
        except AttributeError:
            pass
        atexit.unregister(self.close)

    def clear(self):
        for key in self.update_index():
            self._discard(key)

    def __str__(self):
        return f"{self.__class__.__name__} with keys {self.update_index()}"

    def __repr__(self):
        return self.__str__()


class GridPaper""","""                self._discard(key)
            self.index.close()
            self._sweep()
        except AttributeError:
            pass
        atexit.unregister(self.close)

    def _sweep(self):
        \"\"\"remove what killed processes may have left of this object\"\"\"
        if not os.path.isdir("/dev/shm"):
            return
        for name in os.listdir("/dev/shm"):
            if name.startswith(f"{self.prefix}"):
                delete_block(name, missing_ok=True)

    def clear(self):
        for key in self.update_index():
            self._discard(key)

    def __str__(self):
        return f"{self.__class__.__name__} with keys {self.update_index()}"

    def __repr__(self):
        return self.__str__()


class GridPaper"""),
("codex/implements.py","""            for key in keys:
                if dump is True:
                    self.dump(key, dump_name(key))
                self._discard(key)
            self.index.close()
            self._sweep()""","""            for key in keys:
                if dump:
                    self.dump(key, dump_name(key))
                self._discard(key)
            self.index.close()
            self._sweep()""")]
DEMO='''
import shmhook as h
from dustgoggles.codex.implements import Notepad

one = Notepad(h.PREFIX + "pad", create=True)
two = Notepad(h.PREFIX + "pad2", create=True)
for pad in one, two:
    pad["a"] = list(range(10))
one.close()
try:
    ok = two["a"] == list(range(10)) and list(two.keys()) == ["a"]
except Exception as ex:
    ok = repr(ex)
h.finish(ok is True, ok)
'''
