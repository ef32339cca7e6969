#!/usr/bin/env python3
"""determinism.py PROP N [SEED]: runs N seeds twice, in different numbers of
processes and under different hash seeds, and compares every run's digest."""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import check  # noqa


def digests(prop, n, seed, workers, hashseed):
    msgs, problems = check.run_workers(prop, "quick", seed, n, workers,
                                       time.monotonic() + 600, ("digests",),
                                       hashseed)
    if problems:
        print(problems)
    return {m["i"]: m["d"] for m in msgs if m["t"] == "digest"}


prop, n = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
a = digests(prop, n, seed, 8, "0")
b = digests(prop, n, seed, 3, "12345")
common = sorted(set(a) & set(b))
bad = [i for i in common if a[i] != b[i]]
print(f"{prop}: {len(common)} runs compared, {len(bad)} differ {bad[:10]}")
sys.exit(1 if bad or not common else 0)
