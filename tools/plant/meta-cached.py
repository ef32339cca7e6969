PROP="C25"; SHM=False
NEEDS="a file that is written anew under the same path after its metadata have been read"
BREAKS="rows of the new file within the bounds are left out, or reading them fails"
EDITS=[("mosaic.py","""from itertools import product

from cytoolz""","""from functools import lru_cache
from itertools import product

from cytoolz"""),
("mosaic.py","""def parquet_metadata_records(parquet_fn):
    meta = parquet.read_metadata(parquet_fn)
""","""@lru_cache(maxsize=32)
def _read_metadata(parquet_fn):
    return parquet.read_metadata(parquet_fn)


def parquet_metadata_records(parquet_fn):
    # (footers of wide files take a while to fetch and parse)
    meta = _read_metadata(parquet_fn)
""")]
DEMO='''
import os, sys, tempfile
import pyarrow as pa
from pyarrow import parquet
from dustgoggles.mosaic import parquet_metadata_records, read_between

with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "t.parquet")
    ok = True
    for first in (0, 1000):
        parquet.write_table(pa.table({"x": list(range(first, first + 100))}),
                            fn, row_group_size=10)
        recs = [r for r in parquet_metadata_records(fn)
                if r["path_in_schema"] == "x"]
        with parquet.ParquetFile(fn) as f:
            got = read_between(f, "x", (first + 5, first + 25), recs,
                               verbose=False)
        ok &= got is not None and got["x"].to_pylist() == list(
            range(first + 5, first + 25))
sys.exit(0 if ok else 1)
'''
