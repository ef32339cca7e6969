"""
Parquet files on the simulated file system.

pyarrow runs for real; a path below /simfs is resolved to a file system whose
files are Python objects over sim.fs, so that every read and write of the
library is a simulated system call.  ParquetWriters are remembered, with
whether their close() has been called.
"""
import io
import os

import pyarrow as pa
from pyarrow import fs as pafs
from pyarrow import parquet

from sim import fs as simfs

_real = {}


class Handler(pafs.FileSystemHandler):
    def __init__(self, fs):
        self.fs = fs

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def get_type_name(self):
        return "sim"

    def normalize_path(self, path):
        return os.path.normpath(path)

    def info(self, path):
        fs = self.fs
        if path in fs.dirs:
            return pafs.FileInfo(path, pafs.FileType.Directory)
        if path in fs.files:
            return pafs.FileInfo(path, pafs.FileType.File,
                                 size=len(fs.files[path].data))
        return pafs.FileInfo(path, pafs.FileType.NotFound)

    def get_file_info(self, paths):
        return [self.info(p) for p in paths]

    def get_file_info_selector(self, selector):
        return [self.info(p) for p in (*self.fs.files, *self.fs.dirs)
                if os.path.dirname(p) == selector.base_dir.rstrip("/")]

    def create_dir(self, path, recursive):
        self.fs.mkdir(path)

    def delete_file(self, path):
        self.fs.unlink(path)

    def move(self, src, dest):
        self.fs.rename(src, dest)

    def copy_file(self, src, dest):
        with self.fs.open(src, "rb") as a, self.fs.open(dest, "wb") as b:
            b.write(a.read())

    def _no(self, *a):
        raise NotImplementedError("not simulated")

    delete_dir = delete_dir_contents = delete_root_dir_contents = _no

    def open_input_file(self, path):
        return pa.PythonFile(self.fs.open(path, "rb"), mode="r")

    open_input_stream = open_input_file

    def open_output_stream(self, path, metadata):
        return pa.PythonFile(self.fs.open(path, "wb"), mode="w")

    def open_append_stream(self, path, metadata):
        return pa.PythonFile(self.fs.open(path, "ab"), mode="w")


def install():
    if _real:
        return
    pa.set_cpu_count(1)
    pa.set_io_thread_count(1)
    real = _real["resolve"] = pafs._resolve_filesystem_and_path

    def resolve(path, filesystem=None, **k):
        fs = simfs._fs()
        if fs is not None and filesystem is None:
            try:
                p = fs.where(path)
            except TypeError:
                p = None
            if p is not None:
                return pafs.PyFileSystem(Handler(fs)), p
        return real(path, filesystem, **k)

    pafs._resolve_filesystem_and_path = resolve
    parquet.core._resolve_filesystem_and_path = resolve
    init, close = parquet.ParquetWriter.__init__, parquet.ParquetWriter.close

    def new_init(self, *a, **k):
        init(self, *a, **k)
        fs = simfs._fs()
        if fs is not None:
            fs.writers.append([self, False])

    def new_close(self):
        fs = simfs._fs()
        for w in fs.writers if fs is not None else ():
            if w[0] is self:
                w[1] = True
        return close(self)

    parquet.ParquetWriter.__init__ = new_init
    parquet.ParquetWriter.close = new_close


def write(table, **kw):
    """the bytes of a parquet file"""
    b = io.BytesIO()
    parquet.write_table(table, b, **kw)
    return b.getvalue()


def read(data):
    return parquet.read_table(io.BytesIO(data))


def metadata(data):
    return parquet.read_metadata(io.BytesIO(data))
