"""
Simulated POSIX shared memory, below the standard library's SharedMemory.

`multiprocessing.shared_memory` runs for real; what it calls - `_posixshmem`,
`os.ftruncate/fstat/close`, `mmap.mmap`, `memoryview`, `resource_tracker` - is
replaced by this module while a world is active.  With no world active every
seam raises, so that a stray call can never touch the real /dev/shm.
"""
import ctypes
import errno
import mmap as real_mmap
import os as real_os
import types

from sim.kernel import HarnessError, SimKill

FD0 = 1_000_000
STATE = types.SimpleNamespace(world=None)

ERRNOS = dict(EMFILE=errno.EMFILE, ENFILE=errno.ENFILE, ENOMEM=errno.ENOMEM,
              ENOSPC=errno.ENOSPC, EIO=errno.EIO, EINTR=errno.EINTR,
              EACCES=errno.EACCES)


def oserror(name, path=None):
    code = ERRNOS[name]
    if path is None:
        return OSError(code, real_os.strerror(code))
    return OSError(code, real_os.strerror(code), path)


class Inode:
    __slots__ = ("data", "ino", "name")

    def __init__(self, ino, name, data=None):
        self.data = bytearray() if data is None else data
        self.ino, self.name = ino, name


class Pages:
    """
    contents of a block that really is mapped anew by each SimMmap, so that
    an address tells through which mapping it is reached
    """

    def __init__(self):
        self.fd = real_os.memfd_create("block")
        self.size, self.real = 0, None

    def __len__(self):
        return self.size

    def __buffer__(self, flags):
        if not self.size:
            return memoryview(b"")
        if self.real is None or len(self.real) < self.size:
            self.real = real_mmap.mmap(self.fd, self.size)
        return memoryview(self.real)[:self.size]

    def resize(self, size):
        # (never smaller: an access beyond the end would be the end of us)
        real_os.ftruncate(self.fd, max(size, self.size))
        self.size = size

    def map(self, size):
        return real_mmap.mmap(self.fd, size)

    def __del__(self):
        real_os.close(self.fd)


class World:
    """the shared-memory namespace all simulated processes see"""

    def __init__(self, kernel, tear=None):
        self.k = kernel
        self.names = {}
        self.fds = {}
        self.next_fd = FD0
        self.next_ino = 1
        # tear: random.Random deciding whether block copies are split
        self.tear = tear
        self.tear_p = 0.0
        # one run splits the writers' copies, the readers', or both
        self.tear_what = tear.choice(("r", "w", "rw")) \
            if tear is not None else ""
        self.fs = None              # sim.fs.FS, if files are simulated
        self.max_blocks = None      # capacity: creating more fails (ENOSPC)
        # every mapping has an address of its own (see mapping_of)
        self.distinct = False
        self.maps = []
        self.trackers = {}          # family -> set of registered names
        self.tracker_log = []
        self.sems = set()
        self.stats = dict(creates=0, opens=0, unlinks=0, writes=0, reads=0)
        kernel.on_exit.append(self.proc_exit)

    # -- namespace -----------------------------------------------------------
    def shm_open(self, name, flags, mode=0o600):
        create = bool(flags & real_os.O_CREAT)
        f = self.k.point("create" if create else "open", name)
        if "\0" in name:
            raise ValueError("embedded null character")
        if "/" in name[1:] or name == "/" or not name:
            raise OSError(errno.EINVAL, "Invalid argument", name)
        if len(name.encode()) > 256:
            raise OSError(errno.ENAMETOOLONG, "File name too long", name)
        if f is not None:
            self.k.count_fault(f["errno"])
            raise oserror(f["errno"], name)
        if create:
            if name in self.names:
                if flags & real_os.O_EXCL:
                    raise FileExistsError(errno.EEXIST, "File exists", name)
                inode = self.names[name]
            else:
                if self.max_blocks is not None \
                        and len(self.names) >= self.max_blocks:
                    self.k.count_fault("shm_full")
                    raise oserror("ENOSPC", name)
                inode = self.names[name] = Inode(
                    self.next_ino, name, Pages() if self.distinct else None)
                self.next_ino += 1
                self.stats["creates"] += 1
                self.k.changed()
        else:
            if name not in self.names:
                raise FileNotFoundError(
                    errno.ENOENT, "No such file or directory", name)
            inode = self.names[name]
            self.stats["opens"] += 1
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = (inode, create)
        self.k.space.fds.add(fd)
        return fd

    def shm_unlink(self, name):
        self.k.point("unlink", name)
        if name not in self.names:
            raise FileNotFoundError(
                errno.ENOENT, "No such file or directory", name)
        del self.names[name]
        self.stats["unlinks"] += 1
        self.k.changed()

    def ftruncate(self, fd, size):
        inode, _ = self.fds[fd]
        f = self.k.point("trunc", inode.name)
        if f is not None:
            self.k.count_fault(f["errno"])
            raise oserror(f["errno"])
        if size != len(inode.data):
            if self.distinct:
                inode.data.resize(size)
            elif size > len(inode.data):
                inode.data.extend(bytes(size - len(inode.data)))
            else:
                del inode.data[size:]
            self.k.changed()

    def fstat(self, fd):
        inode, creator = self.fds[fd]
        if not creator:
            self.k.point("stat", inode.name)
        return types.SimpleNamespace(st_size=len(inode.data), st_mode=0o100600)

    def close(self, fd):
        self.fds.pop(fd, None)
        k = self.k
        k.space.fds.discard(fd)

    def mmap(self, fd, size):
        inode, creator = self.fds[fd]
        if creator:
            f = self.k.point("mmap", inode.name)
            if f is not None:
                self.k.count_fault(f["errno"])
                raise oserror(f["errno"])
        if size == 0:
            size = len(inode.data)
        if size == 0:
            raise ValueError("cannot mmap an empty file")
        return SimMmap(self, inode, size)

    # -- resource tracker ------------------------------------------------------
    def track(self, cmd, name, rtype):
        fam = self.k.space.family
        regs = self.trackers.setdefault(fam, set())
        if cmd == "register":
            regs.add((name, rtype))
        elif (name, rtype) in regs:
            regs.discard((name, rtype))
        else:
            self.tracker_log.append(("unknown unregister", fam, name, rtype))

    def proc_exit(self, p):
        fam = p.family
        if fam == 0:                # family 0 also holds the harness's parent
            return
        if any(q is not p and q.family == fam and q.state != "done"
               for q in self.k.procs):
            return
        self.family_exit(fam)

    def family_exit(self, fam):
        """last process of a family is gone: its tracker cleans up"""
        for name, rtype in sorted(self.trackers.pop(fam, ())):
            self.tracker_log.append(("leaked", fam, name, rtype))
            if rtype == "shared_memory" and name in self.names:
                del self.names[name]
                self.k.changed()
                self.k.count_fault("tracker_cleanup")
            elif rtype == "semaphore":
                self.sems.discard(name)

    # -- inspection (harness only) ---------------------------------------------
    def mapping_of(self, address):
        """the mapping (perhaps closed) that an address belongs to, or None"""
        for m in self.maps:
            if m.start <= address < m.start + m.size:
                return m

    def blocks(self, prefix=""):
        return sorted(n[1:] for n in self.names if n[1:].startswith(prefix))


class SimMmap:
    def __init__(self, world, inode, size):
        self.world, self.inode, self.size = world, inode, size
        self.closed, self.real = False, None
        if world.distinct:
            # stays where it is when closed: what still uses it must be found
            # out, not crash
            self.real = inode.data.map(size)
            self.start = ctypes.addressof(ctypes.c_char.from_buffer(self.real))
            world.maps.append(self)

    def close(self):
        self.inode, self.closed = None, True


class SimView:
    """stands in for memoryview(mmap): every access is a scheduling point"""

    def __init__(self, mm):
        self._w, self._inode, self._size = mm.world, mm.inode, mm.size
        self._released = False
        self._exports = 0
        self._real = mm.real

    def _mv(self):
        if self._released:
            raise ValueError("operation forbidden on released memoryview object")
        if self._real is not None:
            return memoryview(self._real)[:self._size]
        return memoryview(self._inode.data)[:self._size]

    def _torn(self, n, what):
        w = self._w
        return (n > 8 and what in w.tear_what and w.tear is not None
                and w.tear_p and w.k.current is not None
                and w.tear.random() < w.tear_p)

    def _parts(self, n, what):
        """the parts, in order, in which n bytes are copied"""
        if not self._torn(n, what):
            return (slice(0, n),)
        rng = self._w.tear
        cuts = [0, *sorted(rng.sample(range(1, n), min(
            n - 1, rng.choice((1, 1, 2, 4))))), n]
        parts = [slice(a, b) for a, b in zip(cuts, cuts[1:])]
        if rng.random() < 0.25:             # memcpy promises no order
            rng.shuffle(parts)
        self._w.k.count_fault(
            "torn_write" if what == "w" else "torn_read")
        return parts

    def _copy_in(self, mv, value):
        """mv[:] = value"""
        w = self._w
        try:
            src = memoryview(value).cast("B")
        except TypeError:
            src = None
        if src is None or len(src) != len(mv):
            mv[:] = value
        else:
            for ix, part in enumerate(self._parts(len(mv), "w")):
                if ix:
                    w.k.changed()
                    w.k.point("tear", self._inode.name)
                mv[part] = src[part]
        w.k.changed()

    def _copy_out(self, mv):
        out = bytearray(len(mv))
        for ix, part in enumerate(self._parts(len(mv), "r")):
            if ix:
                self._w.k.point("tear", self._inode.name)
            out[part] = mv[part]
        return bytes(out)

    def __setitem__(self, key, value):
        w = self._w
        w.k.point("write", self._inode.name)
        mv = self._mv()
        w.stats["writes"] += 1
        if isinstance(key, slice):
            self._copy_in(mv[key], value)
        else:
            mv[key] = value
            w.k.changed()

    def __getitem__(self, key):
        self._w.k.point("read", self._inode.name)
        self._w.stats["reads"] += 1
        got = self._mv()[key]
        return SubView(self, got) if isinstance(got, memoryview) else got

    def tobytes(self, order=None):
        w = self._w
        w.k.point("read", self._inode.name)
        mv = self._mv()
        w.stats["reads"] += 1
        return self._copy_out(mv)

    def __bytes__(self):
        return self.tobytes()

    def tolist(self):
        return list(self.tobytes())

    def hex(self, *a):
        return self.tobytes().hex(*a)

    def __len__(self):
        return len(self._mv())

    def __iter__(self):
        return iter(self.tobytes())

    def __eq__(self, other):
        if isinstance(other, SimView):
            other = other.tobytes()
        return self.tobytes() == other

    __hash__ = None

    nbytes = property(lambda s: len(s._mv()))
    itemsize = property(lambda s: 1)
    format = property(lambda s: "B")
    ndim = property(lambda s: 1)
    shape = property(lambda s: (len(s._mv()),))
    strides = property(lambda s: (1,))
    readonly = property(lambda s: False)
    contiguous = property(lambda s: True)
    c_contiguous = property(lambda s: True)
    f_contiguous = property(lambda s: True)

    def cast(self, *a, **k):
        self._w.k.point("read", self._inode.name)
        return self._mv().cast(*a, **k)

    def toreadonly(self):
        return self._mv().toreadonly()

    def __buffer__(self, flags):
        # direct access (numpy, struct, bytes()): one point, then unobserved
        self._w.k.point("buffer", self._inode.name)
        self._w.k.changed()
        self._exports += 1
        return self._mv()

    def __release_buffer__(self, view):
        self._exports -= 1
        try:
            self._w.k.changed()
        except Exception:
            pass

    def release(self):
        if self._exports > 0:
            raise BufferError(
                f"memoryview has {self._exports} exported buffer(s)")
        self._released = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.release()


class SubView:
    """slice of a SimView; keeps the scheduling points"""

    def __init__(self, parent, mv):
        self._p, self._m = parent, mv

    def tobytes(self, order=None):
        self._p._w.k.point("read", self._p._inode.name)
        return self._p._copy_out(self._m)

    __bytes__ = tobytes

    def __setitem__(self, key, value):
        self._p._w.k.point("write", self._p._inode.name)
        if isinstance(key, slice):
            self._p._copy_in(self._m[key], value)
        else:
            self._m[key] = value
            self._p._w.k.changed()

    def __getitem__(self, key):
        self._p._w.k.point("read", self._p._inode.name)
        return self._m[key]

    def __len__(self):
        return len(self._m)

    def __iter__(self):
        return iter(self.tobytes())

    def __eq__(self, other):
        return self.tobytes() == other

    __hash__ = None

    def __buffer__(self, flags):
        self._p._w.k.point("buffer", self._p._inode.name)
        self._p._w.k.changed()
        return self._m

    def release(self):
        pass


# ------------------------------------------------------------------- installing
def _world():
    w = STATE.world
    if w is None:
        raise HarnessError("shared-memory call outside a simulated world")
    return w


class _Fallback(types.ModuleType):
    def __init__(self, name, real, **over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


def _fake_close(fd):
    if fd >= FD0:
        w = STATE.world
        if w is not None:
            w.close(fd)
        return
    return real_os.close(fd)


def _fake_ftruncate(fd, n):
    return _world().ftruncate(fd, n) if fd >= FD0 else real_os.ftruncate(fd, n)


def _fake_fstat(fd):
    return _world().fstat(fd) if fd >= FD0 else real_os.fstat(fd)


class TrackerClient:
    """the client side of multiprocessing.resource_tracker, one per process"""

    def register(self, name, rtype):
        if STATE.world is not None:
            STATE.world.track("register", name, rtype)

    def unregister(self, name, rtype):
        if STATE.world is not None:
            STATE.world.track("unregister", name, rtype)

    def ensure_running(self):
        pass

    def getfd(self):
        return -1


class TrackerModule(types.ModuleType):
    """
    `multiprocessing.resource_tracker` as each simulated process sees it:
    module attributes are per process, as they are in reality.
    """

    def __init__(self, real):
        super().__init__("multiprocessing.resource_tracker")
        object.__setattr__(self, "_real", real)

    def _ns(self):
        w = STATE.world
        if w is None:
            return None
        sp = w.k.space
        if sp.tracker is None:
            client = TrackerClient()
            sp.tracker = dict(
                _resource_tracker=client, register=client.register,
                unregister=client.unregister,
                ensure_running=client.ensure_running, getfd=client.getfd,
                _CLEANUP_FUNCS={"noop": None, "semaphore": None,
                                "shared_memory": None})
        return sp.tracker

    def __getattribute__(self, name):
        if name in ("_ns", "_real", "__class__", "__dict__", "__name__",
                    "__spec__", "__loader__", "__path__", "__file__"):
            return object.__getattribute__(self, name)
        ns = self._ns()
        if ns is not None and name in ns:
            return ns[name]
        return getattr(object.__getattribute__(self, "_real"), name)

    def __setattr__(self, name, value):
        ns = self._ns()
        if ns is None:
            return object.__setattr__(self, name, value)
        ns[name] = value

    def __delattr__(self, name):
        ns = self._ns()
        if ns is not None:
            ns.pop(name, None)


def install():
    import sys
    import multiprocessing
    import multiprocessing.resource_tracker as rt
    import multiprocessing.shared_memory as sm

    fake_shm = types.ModuleType("_posixshmem")
    fake_shm.shm_open = (
        lambda path, flags, mode=0o777: _world().shm_open(path, flags, mode))
    fake_shm.shm_unlink = lambda path: _world().shm_unlink(path)
    sys.modules["_posixshmem"] = fake_shm
    sm._posixshmem = fake_shm
    sm.os = _Fallback("os", real_os, close=_fake_close,
                      ftruncate=_fake_ftruncate, fstat=_fake_fstat)
    sm.mmap = _Fallback("mmap", real_mmap,
                        mmap=lambda fd, size, *a, **k: _world().mmap(fd, size))
    real_memoryview = memoryview
    sm.memoryview = (lambda x: SimView(x) if isinstance(x, SimMmap)
                     else real_memoryview(x))
    tm = TrackerModule(rt)
    sm.resource_tracker = tm
    multiprocessing.resource_tracker = tm
    sys.modules["multiprocessing.resource_tracker"] = tm
    # a block that is garbage-collected with live exports warns in reality;
    # keep the noise out of the logs
    sys.unraisablehook = lambda *_: None
