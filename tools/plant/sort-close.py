PROP="C20"; SHM=False
NEEDS="a write that fails when the output is closed: its footer does not fit on the disk"
BREAKS="sorting reports success, but the output is not readable"
EDITS=[("mosaic.py","""    finally:
        sort_writer.close()
""","""    finally:
        try:
            sort_writer.close()
        except OSError as ex:
            # don't hide what went wrong above
            print(f"could not close {output_file}: {ex}")
""")]
DEMO='''
import io
import sys
import pyarrow as pa
from pyarrow import parquet
from dustgoggles.mosaic import sort_chunked


class Disk(io.BytesIO):
    room = None

    def write(self, b):
        if self.room is not None and self.tell() + len(b) > self.room:
            raise OSError(28, "No space left on device")
        return super().write(b)


source = io.BytesIO()
parquet.write_table(pa.table({"k": [3, 1, 2] * 50}), source)
whole = Disk()
sort_chunked(source, whole, "k", verbose=False)
size = len(whole.getvalue())
bad = []
for room in range(size - 60, size):
    out = Disk()
    out.room = room
    try:
        sort_chunked(source, out, "k", verbose=False)
    except OSError:
        continue
    try:
        n = parquet.read_table(io.BytesIO(out.getvalue())).num_rows
    except Exception as ex:
        n = ex
    if n != 150:
        bad.append((room, n))
print(bad[:2])
sys.exit(1 if bad else 0)
'''
