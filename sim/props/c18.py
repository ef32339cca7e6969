"""C18 reading the head of a file or stream."""
import errno
import io
import os
import pathlib
import re

from sim.base import SimRun, Violation, short
from sim.fs import FS
from sim.kernel import HarnessError, SimKill

ID = "C18"
RULE = ("each run: 1-4 heads are read from files and streams whose reads "
        "come in pieces of chosen sizes, fail with an I/O error, are "
        "interrupted, or would wait for ever once the head has arrived; "
        "result, error and closing are compared with the bytes there are")
REAL = ["dustgoggles.scrape.head_file, trim_label, get_label_text",
        "buffered and text layers of the interpreter's io module"]
STUB = ["streams and raw files (in memory)"]
ASSUMPTIONS = ["streams block until they have at least one byte or have "
               "ended (no non-blocking reads)"]
QUICK, THOROUGH = 60000, 2000000
MAX_LABEL = 500 * 1024


def gen_data(rng, big=False):
    r = rng.random()
    size = rng.choice((140000, 520000, 700000)) if big else rng.choice((0, 1, 7, 40, 300, 300, 5000, 9000, 40000))
    if r < 0.15:
        return dict(text="", size=size, end=None, at=0)
    return dict(text=rng.choice(("PDS = 3\r\n", "x", "\u00e9", "\u706b ",
                                 "A=(1,2)\r\n", "END ")),
                size=size, end=rng.choice((None, "END\r\n", "\0\0\0", "both",
                                           "\0\0", "split")),
                at=rng.choice((0, 0.3, 0.5, 0.9, 1.0)))


def build(d):
    body = d["text"].encode()
    body = (body * (d["size"] // max(1, len(body)) + 1))[:d["size"]] \
        if body else bytes(range(48, 58)) * (d["size"] // 10)
    end = {None: b"", "both": b"\0\0\0END\r\n\0\0\0\0",
           "split": b"END\rEND\r\nEND\r\n"}.get(d["end"])
    end = d["end"].encode() if end is None else end
    cut = int(len(body) * d["at"])
    return body[:cut] + end + body[cut:]


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        data = gen_data(rng, i % 250 == 99 and not ops)
        size = len(build(data))
        n = rng.choice((0, 1, 5, size // 2, max(0, size - 1), size, size + 1,
                        2 * size + 9, 1 << 20, MAX_LABEL))
        src = rng.choice(("str", "path", "duck", "duck", "raw", "rawfile",
                          "buffered", "file"))
        what = rng.choice(("head", "head", "head", "trim", "text"))
        if what == "text":
            src = rng.choice(("str", "path"))
        sizes = [rng.choice((1, 2, 3, 7, 50, 512, 4096))
                 for _ in range(rng.choice((1, 1, 2, 5)))]
        if size > 2000:
            sizes = [s * (64 if size < 100000 else 1024) for s in sizes]
        ops.append(dict(what=what, src=src, data=data, n=n, pieces=sizes,
                        stall=rng.random() < 0.25,
                        strict=rng.random() < 0.4,
                        skip=rng.choice((0, 0, 0, 3))
                        if src not in ("str", "path") else 0,
                        missing=src in ("str", "path") and
                        rng.random() < 0.06))
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice((1, 1, 2))):
            r = rng.random()
            call = rng.choice(("s.read", "f.read", "f.read", "f.open"))
            nth = rng.choice((1, 1, 2, 3, 5, 9))
            if r < 0.3:
                faults.append(dict(kind="interrupt", call=call, nth=nth))
            elif r < 0.75 or call != "f.read":
                faults.append(dict(kind="errno", call=call, nth=nth,
                                   errno=rng.choice(("EIO", "EACCES",
                                                     "ESTALE"))))
            else:
                faults.append(dict(kind="short", call=call, nth=nth,
                                   times=rng.choice((1, 3, 20)),
                                   short=rng.choice((0.1, 0.5, 0.9))))
    return dict(cfg=dict(), procs=[dict(ops=ops, faults=faults)],
                max_steps=400000, sched=dict(kind="list", choices=[]))


class Base:
    """a stream that hands out its bytes in pieces"""

    def set(self, run, data, pieces, limit):
        self.run, self.data, self.pieces = run, data, pieces
        self.limit, self.pos, self.n = limit, 0, 0
        self.shut = 0
        return self

    def take(self, n):
        k = self.run.k
        f = k.point("s.read", n)
        if f is not None and f.get("errno"):
            k.count_fault(f["errno"])
            code = getattr(errno, f["errno"])
            raise OSError(code, os.strerror(code))
        if self.limit is not None and self.pos >= self.limit and n != 0:
            raise Violation("overread", f"asked for {n} more bytes after "
                            f"the {self.limit} wanted: on a live stream this "
                            f"waits for ever")
        m = self.pieces[self.n % len(self.pieces)]
        self.n += 1
        left = len(self.data) - self.pos
        n = left if n is None or n < 0 else min(n, left)
        if n > m:
            n = m
            k.count_fault("short_read")
        got = self.data[self.pos:self.pos + n]
        self.pos += n
        return got


class Duck(Base):
    def read(self, n=-1):
        if self.shut:
            raise ValueError("read of closed file")
        if n is None or n < 0:
            out = b""
            while got := self.take(1 << 30):
                out += got
            return out
        return self.take(n)

    def close(self):
        self.shut += 1


class RawStream(Base, io.RawIOBase):
    def readable(self):
        return True

    def readinto(self, b):
        got = self.take(len(b))
        b[:len(got)] = got
        return len(got)

    def close(self):
        self.shut += 1
        super().close()


def execute(plan, chooser=None):
    with SimRun(plan, chooser) as run:
        run.w.fs = fs = FS(run.k)
        log = []

        def body(p):
            try:
                for j, op in enumerate(plan["procs"][0]["ops"]):
                    one(run, fs, op, j, log)
            except Violation as v:
                run.fail(v.cls, v.msg)

        run.k.spawn(body, faults=plan["procs"][0]["faults"])
        run.go()
        run.require_end("reading")
        run.out.digest_extra = repr(log)
    return run.out


def one(run, fs, op, j, log):
    from dustgoggles import scrape
    k = run.k
    data = build(op["data"])
    path = f"/simfs/f{j}"
    if not op["missing"]:
        fs.put(path, data)
    n = op["n"] if op["what"] != "trim" or op["n"] else 1
    stream = None
    src = op["src"]
    handles = len(fs.handles)
    try:
        if src == "str":
            arg = path
        elif src == "path":
            arg = pathlib.Path(path)
        elif src in ("duck", "raw", "buffered"):
            limit = op["skip"] + n if op["stall"] and src != "buffered" \
                else None
            stream = (Duck() if src == "duck" else RawStream()).set(
                run, data, op["pieces"], limit)
            arg = stream if src != "buffered" else io.BufferedReader(stream)
        else:
            arg = open(path, "rb", 0 if src == "rawfile" else -1)
        at = 0
        if op["skip"]:
            at = len(arg.read(op["skip"]))      # part has been read before
    except (OSError, KeyboardInterrupt):
        return
    data = data[at:]
    before = dict(k.fault_counts)
    value, error = None, None
    try:
        if op["what"] == "head":
            out = scrape.head_file(arg, n)
            value = out.read()
        elif op["what"] == "trim":
            value = scrape.trim_label(arg, n, op["strict"])
        else:
            value = scrape.get_label_text(arg, n)
    except (SimKill, HarnessError, Violation):
        raise
    except (Exception, KeyboardInterrupt) as ex:
        error = ex          # keeps the frames, and what they hold, alive
    what = (f"{op['what']} of {n} of {len(data)} bytes ({src}, pieces "
            f"{op['pieces']})")
    hit = [f for f in ("interrupt", "EIO", "EACCES", "ESTALE")
           if k.fault_counts.get(f, 0) > before.get(f, 0)]
    log.append((what, short(value), type(error).__name__))
    # closed whatever happened
    if stream is not None and not stream.shut:
        raise Violation("not-closed", f"{what}: the stream is still open; "
                        f"error {error!r}")
    if stream is None and any(not h.closed for h in fs.handles[handles:]):
        raise Violation("not-closed", f"{what}: the file is still open; "
                        f"error {error!r}")
    if hit:
        k.probe("failed")
        good = KeyboardInterrupt if "interrupt" in hit else OSError
        if not isinstance(error, good):
            raise Violation("error-lost", f"{what} was hit by {hit} but gave "
                            f"{short(value)}, error {error!r}")
        return
    if op["missing"]:
        if not isinstance(error, FileNotFoundError):
            raise Violation("missing", f"{what} of a missing file: "
                            f"{short(value)}, {error!r}")
        return
    want = wanted(op, data, n)
    if isinstance(want, type):
        if type(error) is not want:
            raise Violation("wrong-result", f"{what} should raise "
                            f"{want.__name__}: {short(value)}, {error!r}")
        return
    if error is not None:
        raise Violation("wrong-result", f"{what} raised {error!r}")
    if value != want or type(value) is not type(want):
        raise Violation("wrong-result", f"{what} gave {len(value)} long "
                        f"{short(value)}, should be {len(want)} long "
                        f"{short(want)}")


def wanted(op, data, n):
    head = data[:n]
    if op["what"] == "head":
        return head
    try:
        if op["what"] == "text":
            return head.decode()
        for end in (b"END\r\n", b"\0\0\0"):
            if end in head:
                return head[:head.index(end) + len(end)].decode()
        if op["strict"]:
            return ValueError
        return head.decode()
    except UnicodeDecodeError:
        return UnicodeDecodeError
