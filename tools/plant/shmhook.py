"""runs code of the demonstration at chosen shared-memory calls; every block
it makes carries a prefix of its own and is removed at the end"""
import glob
import multiprocessing.shared_memory as sm
import os
import sys
import threading

PREFIX = f"demo{os.getpid()}x"
_real = sm._posixshmem
_busy = threading.local()


class Hooked:
    hook = None

    @classmethod
    def _call(cls, kind, name):
        if cls.hook is None or getattr(_busy, "on", False):
            return
        _busy.on = True
        try:
            cls.hook(kind, name.lstrip("/"))
        finally:
            _busy.on = False

    @staticmethod
    def shm_open(name, flags=0, mode=0o777):
        Hooked._call("create" if flags & os.O_CREAT else "open", name)
        return _real.shm_open(name, flags, mode=mode)

    @staticmethod
    def shm_unlink(name):
        Hooked._call("unlink", name)
        return _real.shm_unlink(name)


sm._posixshmem = Hooked


def blocks(prefix=PREFIX):
    return sorted(os.path.basename(p) for p in glob.glob(f"/dev/shm/{prefix}*"))


def elsewhere(fn, *args, timeout=20):
    """run fn in another thread while this one stands still"""
    box = []

    def body():
        _busy.on = True
        try:
            box.append(("ok", fn(*args)))
        except BaseException as ex:
            box.append(("err", ex))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(timeout)
    return box[0] if box else ("stuck", None)


def finish(ok, why=""):
    for b in blocks():
        try:
            os.unlink(f"/dev/shm/{b}")
        except OSError:
            pass
    print("fine" if ok else f"BROKEN: {why}")
    sys.stdout.flush()
    os._exit(0 if ok else 1)
