"""
A simulated file system below /simfs (and, if asked for, for relative paths).

Files are byte arrays in memory.  `open` builds the interpreter's own buffered
and text layers over a simulated raw file, so what is still in a buffer when a
process is killed is lost and what reached write(2) stays.  Every system call
is a scheduling point and can fail, be cut short, or be the last thing a
process does.
"""
import builtins
import errno
import fcntl
import io
import os
import stat as stat_mod

from sim import shm
from sim.kernel import SimKill

ROOT = "/simfs"
FD1 = 2_000_000
_real = {}
ERR = dict(ENOSPC=errno.ENOSPC, EIO=errno.EIO, EACCES=errno.EACCES,
           EMFILE=errno.EMFILE, ENOENT=errno.ENOENT, EDQUOT=errno.EDQUOT,
           EROFS=errno.EROFS, EINTR=errno.EINTR, ESTALE=errno.ESTALE)


class Node:
    __slots__ = ("data", "ino", "memfd", "mtime", "locks", "shared")

    def __init__(self, ino):
        self.data, self.ino, self.memfd = bytearray(), ino, None
        self.mtime = 0.0
        self.locks = []             # raw files that have it locked
        self.shared = False


class FS:
    def __init__(self, kernel, relative=False, tear=None, tear_p=0.0):
        self.k = kernel
        self.extra = ()             # simulated directories elsewhere
        self.files = {}
        self.dirs = {ROOT, ROOT + "/cwd"}
        self.relative = relative
        self.next_ino = 1
        self.capacity = None        # bytes the disk can hold
        self.tear, self.tear_p = tear, tear_p
        self.fds = {}
        self.next_fd = FD1
        self.handles = []           # raw files handed out
        self.on_change = None       # callback(path) after every change

    # -- names ---------------------------------------------------------------
    def where(self, path):
        """simulated absolute path, or None if it is a real one"""
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            if not self.relative or not p:
                return None
            p = ROOT + "/cwd/" + p
        p = os.path.normpath(p)
        for root in (ROOT, *self.extra):
            if p == root or p.startswith(root + "/"):
                return p
        return None

    def simulate(self, root):
        """also what is below this (real) path, which does not exist yet"""
        self.extra += (root,)
        self.dirs.add(os.path.dirname(root))

    def fail(self, name, path):
        self.k.count_fault(name)
        raise OSError(ERR[name], os.strerror(ERR[name]), path)

    def point(self, kind, path):
        f = self.k.point(kind, path)
        if f is not None and f.get("errno"):
            self.fail(f["errno"], path)
        return f

    def used(self):
        return sum(len(n.data) for n in self.files.values())

    def changed(self, what, path, node=None):
        """on_change hears the names a file has now, not the one it was
        opened by"""
        now = self.k.stamp()
        self.k.changed()
        node = node or self.files.get(path)
        if node is not None:
            node.mtime = 1.7e9 + self.k.clock + now * 1e-4
        if self.on_change is not None:
            names = [path] if self.files.get(path) is node else [
                q for q, other in self.files.items() if other is node]
            for q in names:
                self.on_change(q)

    # -- calls ---------------------------------------------------------------
    def open_node(self, path, create, excl, trunc, exists=True):
        self.point("f.open", path)
        if path in self.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        node = self.files.get(path)
        if node is None:
            if not create:
                raise FileNotFoundError(
                    errno.ENOENT, "No such file or directory", path)
            if os.path.dirname(path) not in self.dirs:
                raise FileNotFoundError(
                    errno.ENOENT, "No such file or directory", path)
            node = self.files[path] = Node(self.next_ino)
            self.next_ino += 1
            self.changed("create", path)
        elif excl:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        elif trunc and node.data:
            node.data.clear()
            self.changed("truncate", path, node)
        return node

    def write(self, node, pos, data, path):
        f = self.point("f.write", path)
        n = len(data)
        if f is not None and f.get("short"):
            self.k.count_fault("short_write")
            n = min(n, max(1, int(n * f["short"])))
        if self.capacity is not None:
            room = self.capacity - self.used() + max(
                0, min(len(node.data) - pos, n))
            if room <= 0 and n:
                self.fail("ENOSPC", path)
            if room < n:
                self.k.count_fault("disk_full")
                n = room
        if n > 1 and self.tear_p and self.tear.random() < self.tear_p:
            cut = self.tear.randrange(1, n)
            self._put(node, pos, data[:cut], path)
            self.k.point("f.tear", path)
            self._put(node, pos + cut, data[cut:n], path)
        else:
            self._put(node, pos, data[:n], path)
        return n

    def _put(self, node, pos, data, path):
        if pos > len(node.data):
            node.data.extend(bytes(pos - len(node.data)))
        node.data[pos:pos + len(data)] = data
        self.changed("write", path, node)

    def stat(self, path):
        self.point("f.stat", path)
        if path in self.dirs:
            return os.stat_result((stat_mod.S_IFDIR | 0o755, 1, 1, 1, 0, 0,
                                   0, 0, 0, 0))
        return self.stat_node(self.find(path))

    def stat_node(self, node):
        links = sum(other is node for other in self.files.values())
        t = node.mtime
        return os.stat_result(
            (stat_mod.S_IFREG | 0o644, node.ino, 1, links, 0, 0,
             len(node.data), int(t), int(t), int(t), t, t, t,
             *(int(t * 1e4) * 10 ** 5,) * 3))

    def find(self, path):
        node = self.files.get(path)
        if node is None:
            raise FileNotFoundError(
                errno.ENOENT, "No such file or directory", path)
        return node

    def link(self, src, dst):
        self.point("f.link", src)
        node = self.find(src)
        if dst in self.files or dst in self.dirs:
            raise FileExistsError(errno.EEXIST, "File exists", src, None, dst)
        self.files[dst] = node
        self.changed("link", dst, node)

    def truncate(self, path, size):
        node = self.find(path)
        self.point("f.trunc", path)
        del node.data[size:]
        node.data.extend(bytes(size - len(node.data)))
        self.changed("truncate", path, node)

    def rmdir(self, path):
        self.point("f.unlink", path)
        if path not in self.dirs:
            raise FileNotFoundError(
                errno.ENOENT, "No such file or directory", path)
        if self.listdir(path):
            raise OSError(errno.ENOTEMPTY, "Directory not empty", path)
        self.dirs.remove(path)

    def touched(self, path):
        """its times or permissions are changed"""
        self.point("f.stat", path)
        if path not in self.dirs:
            self.find(path)

    def flock(self, raw, shared, wait):
        node = raw.node
        while True:
            self.k.point("f.lock", raw.name)
            node.locks = [r for r in node.locks if not r.closed and not (
                r.owner is not None and r.owner.dead)]
            others = [r for r in node.locks if r is not raw]
            if not others or shared and node.shared:
                if raw not in node.locks:
                    node.locks.append(raw)
                node.shared = shared
                return
            if not wait:
                raise BlockingIOError(errno.EWOULDBLOCK, "Resource "
                                      "temporarily unavailable")
            self.k.sleep(0, "f.lock")

    def unlink(self, path):
        self.point("f.unlink", path)
        if path not in self.files:
            raise FileNotFoundError(
                errno.ENOENT, "No such file or directory", path)
        node = self.files.pop(path)
        self.changed("unlink", path)
        del node

    def rename(self, src, dst):
        self.point("f.rename", src)
        if src not in self.files:
            raise FileNotFoundError(
                errno.ENOENT, "No such file or directory", src)
        if os.path.dirname(dst) not in self.dirs:
            raise FileNotFoundError(
                errno.ENOENT, "No such file or directory", dst)
        self.files[dst] = self.files.pop(src)
        self.changed("rename", dst)

    def mkdir(self, path):
        self.point("f.mkdir", path)
        if path in self.dirs or path in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        if os.path.dirname(path) not in self.dirs:
            raise FileNotFoundError(
                errno.ENOENT, "No such file or directory", path)
        self.dirs.add(path)

    def listdir(self, path):
        self.point("f.list", path)
        if path not in self.dirs:
            raise FileNotFoundError(
                errno.ENOENT, "No such file or directory", path)
        return sorted(p[len(path) + 1:] for p in [*self.files, *self.dirs]
                      if os.path.dirname(p) == path)

    # -- harness ---------------------------------------------------------------
    def content(self, path):
        node = self.files.get(path)
        return None if node is None else bytes(node.data)

    def put(self, path, data):
        node = self.files[path] = Node(self.next_ino)
        self.next_ino += 1
        node.data[:] = data

    def unclosed(self):
        return [h for h in self.handles if not h.closed]

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        flags = set(mode)
        binary = "b" in flags
        if len(flags & set("rwax")) != 1 or flags - set("rwaxbt+") or \
                len(flags) != len(mode):
            raise ValueError(f"invalid mode: {mode!r}")
        if binary and (encoding or errors or newline):
            raise ValueError("binary mode doesn't take an encoding argument")
        plus = "+" in flags
        raw = Raw(self, path, self.open_node(
            path, bool(flags & set("wax")), "x" in flags, "w" in flags),
            "r" in flags or plus, bool(flags & set("wax")) or plus,
            "a" in flags, mode)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if plus:
            buf = io.BufferedRandom(raw, size)
        elif raw.writable():
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                                buffering == 1)
        text.mode = mode
        return text


class Raw(io.RawIOBase):
    def __init__(self, fs, path, node, r, w, append, mode):
        self.fs, self.name, self.node = fs, path, node
        self._r, self._w, self._a, self._m = r, w, append, mode
        self.pos = len(node.data) if append else 0
        self.owner = fs.k.current
        self.memfd = None
        fs.handles.append(self)

    mode = property(lambda s: "rb+" if s._r and s._w else
                    "rb" if s._r else "ab" if s._a else "wb")

    def _alive(self):
        if self.owner is not None and self.owner.dead:
            raise SimKill
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def readinto(self, b):
        self._alive()
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        f = self.fs.point("f.read", self.name)
        n = len(b)
        if f is not None and f.get("short"):
            self.fs.k.count_fault("short_read")
            n = min(n, max(1, int(n * f["short"])))
        got = bytes(self.node.data[self.pos:self.pos + n])
        b[:len(got)] = got
        self.pos += len(got)
        return len(got)

    def write(self, b):
        self._alive()
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        if self._a:
            self.pos = len(self.node.data)
        b = bytes(b)
        n = self.fs.write(self.node, self.pos, b, self.name)
        if self.memfd is not None:
            os.pwrite(self.memfd, b[:n], self.pos)
        self.pos += n
        return n

    def seek(self, offset, whence=0):
        self._alive()
        new = offset + (0, self.pos, len(self.node.data))[whence]
        if new < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.pos = new
        return new

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self._alive()
        self.fs.point("f.trunc", self.name)
        size = self.pos if size is None else size
        data = self.node.data
        if size < len(data):
            del data[size:]
        else:
            data.extend(bytes(size - len(data)))
        if self.memfd is not None:
            os.truncate(self.memfd, size)
        self.fs.changed("truncate", self.name, self.node)
        return size

    def fileno(self):
        """for C code that writes through a descriptor of its own"""
        if self.memfd is None:
            self._alive()
            self.memfd = os.memfd_create("sim")
            _real["os.write"](self.memfd, bytes(self.node.data))
            _real["os.lseek"](self.memfd, self.pos, 0)
        return self.memfd

    def _sync(self):
        if self.memfd is not None:
            size = _real["os.fstat"](self.memfd).st_size
            self.node.data[:] = os.pread(self.memfd, size, 0)
            _real["os.close"](self.memfd)
            self.memfd = None

    def close(self):
        if not self.closed:
            try:
                self._sync()
            finally:
                super().close()

    def isatty(self):
        return False


def _fs():
    w = shm.STATE.world
    return None if w is None else getattr(w, "fs", None)


def install():
    if _real:
        return
    for name in ("open", "close", "read", "write", "lseek", "fsync", "fstat",
                 "fdatasync"):
        _real["os." + name] = getattr(os, name)
    real_open = builtins.open
    _real["open"] = real_open

    def sim_open(file, *a, **k):
        fs = _fs()
        if fs is not None:
            if isinstance(file, int) and file >= FD1:
                return _fdopen(fs, file, *a, **k)
            path = fs.where(file)
            if path is not None:
                return fs.open(path, *a, **k)
        return real_open(file, *a, **k)

    builtins.open = io.open = sim_open

    def wrap1(name, method):
        real = getattr(os, name)

        def f(path, *a, **k):
            fs = _fs()
            p = fs.where(path) if fs is not None else None
            if p is None:
                return real(path, *a, **k)
            return getattr(fs, method)(p)
        f.__name__ = name
        setattr(os, name, f)

    for name, method in (("stat", "stat"), ("lstat", "stat"),
                         ("unlink", "unlink"), ("remove", "unlink"),
                         ("mkdir", "mkdir"), ("rmdir", "rmdir"),
                     ("chmod", "touched"), ("utime", "touched")):
        wrap1(name, method)
    real_truncate = os.truncate

    def truncate(path, length):
        fs = _fs()
        p = fs.where(path) if fs is not None else None
        return real_truncate(path, length) if p is None else \
            fs.truncate(p, length)
    os.truncate = truncate
    real_listdir = os.listdir

    def listdir(path="."):
        fs = _fs()
        p = fs.where(path) if fs is not None else None
        return real_listdir(path) if p is None else fs.listdir(p)
    os.listdir = listdir
    real_scandir = os.scandir

    def scandir(path="."):
        fs = _fs()
        p = fs.where(path) if fs is not None else None
        return real_scandir(path) if p is None else Scan(
            [Entry(fs, p, n) for n in fs.listdir(p)])
    os.scandir = scandir
    real_access = os.access

    def access(path, mode, **k):
        fs = _fs()
        p = fs.where(path) if fs is not None else None
        if p is None:
            return real_access(path, mode, **k)
        return p in fs.files or p in fs.dirs
    os.access = access

    def wrap2(name, method="rename"):
        real = getattr(os, name)

        def f(src, dst, **k):
            fs = _fs()
            s = fs.where(src) if fs is not None else None
            d = fs.where(dst) if fs is not None else None
            if s is None or d is None:
                return real(src, dst, **k)
            return getattr(fs, method)(s, d)
        setattr(os, name, f)
    wrap2("rename")
    wrap2("replace")
    wrap2("link", "link")
    real_flock, real_lockf = fcntl.flock, fcntl.lockf

    def locker(real):
        def flock(fd, op, *a):
            raw = _raw(fd)
            if raw is None:
                return real(fd, op, *a)
            if op & fcntl.LOCK_UN:
                raw.node.locks = [r for r in raw.node.locks if r is not raw]
                raw.fs.k.changed()
                return None
            return raw.fs.flock(raw, bool(op & fcntl.LOCK_SH),
                                not op & fcntl.LOCK_NB)
        return flock
    fcntl.flock, fcntl.lockf = locker(real_flock), locker(real_lockf)

    def os_open(path, flags, mode=0o777, **k):
        fs = _fs()
        p = fs.where(path) if fs is not None else None
        if p is None:
            return _real["os.open"](path, flags, mode, **k)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        node = fs.open_node(p, bool(flags & os.O_CREAT),
                            bool(flags & os.O_EXCL), bool(flags & os.O_TRUNC))
        raw = Raw(fs, p, node, acc != os.O_WRONLY, acc != os.O_RDONLY,
                  bool(flags & os.O_APPEND), "fd")
        fd = fs.next_fd
        fs.next_fd += 1
        fs.fds[fd] = raw
        return fd
    os.open = os_open

    def byfd(name, fn):
        real = _real["os." + name]

        def f(fd, *a):
            fs = _fs()
            if fs is None or not isinstance(fd, int) or fd < FD1:
                return real(fd, *a)
            return fn(fs, fd, *a)
        setattr(os, name, f)
    byfd("close", lambda fs, fd: fs.fds.pop(fd).close())
    byfd("read", lambda fs, fd, n: fs.fds[fd].read(n))
    byfd("write", lambda fs, fd, b: fs.fds[fd].write(b))
    byfd("lseek", lambda fs, fd, o, w: fs.fds[fd].seek(o, w))
    byfd("fstat", lambda fs, fd: fs.stat_node(fs.fds[fd].node))
    byfd("fsync", lambda fs, fd: fs.point("f.fsync", fs.fds[fd].name) and None)
    byfd("fdatasync",
         lambda fs, fd: fs.point("f.fsync", fs.fds[fd].name) and None)

    real_fsync = os.fsync

    def fsync(fd):
        fs = _fs()
        if fs is not None and isinstance(fd, int):
            for h in fs.handles:
                if h.memfd == fd and not h.closed:
                    fs.point("f.fsync", h.name)
                    h.node.data[:] = os.pread(
                        fd, _real["os.fstat"](fd).st_size, 0)
                    return None
        if fs is not None and hasattr(fd, "fileno"):
            return None
        return real_fsync(fd)
    os.fsync = fsync


class Entry:
    def __init__(self, fs, parent, name):
        self.fs, self.name, self.path = fs, name, f"{parent}/{name}"

    def is_file(self, **_):
        return self.path in self.fs.files

    def is_dir(self, **_):
        return self.path in self.fs.dirs

    def is_symlink(self):
        return False

    is_junction = is_symlink

    def stat(self, **_):
        return self.fs.stat(self.path)

    def inode(self):
        return self.fs.stat(self.path).st_ino

    def __fspath__(self):
        return self.path


class Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass


def _raw(fd):
    """the simulated file behind a descriptor or a file object"""
    fs = _fs()
    if fs is None:
        return None
    if isinstance(fd, int):
        if fd >= FD1:
            return fs.fds.get(fd)
        return next((h for h in fs.handles if h.memfd == fd
                     and not h.closed), None)
    while fd is not None and not isinstance(fd, Raw):
        fd = getattr(fd, "buffer", None) or getattr(fd, "raw", None)
    return fd


def _fdopen(fs, fd, mode="r", buffering=-1, encoding=None, errors=None,
            newline=None, closefd=True, opener=None):
    raw = fs.fds.pop(fd)
    buf = io.BufferedWriter(raw) if raw.writable() and not raw.readable() \
        else io.BufferedRandom(raw) if raw.writable() \
        else io.BufferedReader(raw)
    return buf if "b" in mode else io.TextIOWrapper(
        buf, encoding or "utf-8", errors, newline)
