"""
The simulated shared-memory namespace seen as the directory /dev/shm, should
the library look at it that way.  Never touches the real one.
"""
import errno
import os
import stat as stat_mod

from sim import shm

ROOT = "/dev/shm"


def _name(path):
    """name of a block, "" for the directory itself, None for other paths"""
    if shm.STATE.world is None or isinstance(path, int):
        return None
    try:
        path = os.fsdecode(path)
    except TypeError:
        return None
    if path.rstrip("/") == ROOT:
        return ""
    if path.startswith(ROOT + "/") and "/" not in path[len(ROOT) + 1:]:
        return path[len(ROOT) + 1:]
    return None


class Entry:
    def __init__(self, name):
        self.name, self.path = name, f"{ROOT}/{name}"

    def is_file(self, **_):
        return True

    def is_dir(self, **_):
        return False

    is_symlink = is_junction = is_dir

    def stat(self, **_):
        return _stat(self.name)

    def __fspath__(self):
        return self.path


class Scan:
    def __init__(self, names):
        self.it = iter([Entry(n) for n in names])

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass


def _stat(name):
    w = shm.STATE.world
    w.k.point("stat", name)
    if name == "":
        mode, size, ino = stat_mod.S_IFDIR | 0o1777, 0, 1
    else:
        node = w.names.get("/" + name)
        if node is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT),
                                    f"{ROOT}/{name}")
        mode, size, ino = stat_mod.S_IFREG | 0o600, len(node.data), node.ino
    return os.stat_result((mode, ino, 1, 1, 0, 0, size, 0, 0, 0))


def _blocks():
    w = shm.STATE.world
    w.k.point("readdir", ROOT)
    return w.blocks()


def _listdir(name):
    if name:
        raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR))
    return _blocks()


def _scandir(name):
    return Scan(_listdir(name))


def _unlink(name):
    shm.STATE.world.shm_unlink("/" + name)


def install():
    for name, fn in (("stat", _stat), ("lstat", _stat), ("unlink", _unlink),
                     ("remove", _unlink), ("listdir", _listdir),
                     ("scandir", _scandir)):
        def wrap(real=getattr(os, name), fn=fn):
            def f(path=".", *a, **k):
                got = _name(path)
                return real(path, *a, **k) if got is None else fn(got)
            return f
        setattr(os, name, wrap())
    real_access = os.access

    def access(path, *a, **k):
        got = _name(path)
        if got is None:
            return real_access(path, *a, **k)
        try:
            _stat(got)
        except FileNotFoundError:
            return False
        return True
    os.access = access
