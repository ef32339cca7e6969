PROP="C19"; SHM=False
NEEDS="more labels read in one process than the bounded cache holds (512), then one of the first again"
BREAKS="the label loader keeps only the 512 most recently used labels, so going through a bigger data set twice reads every file again, and shows files as they have become instead of as they were read first"
EDITS=[("scrape.py","from functools import cache\n","from functools import cache, lru_cache\n"),
("scrape.py","cached_label_loader = cache(get_label_text)","cached_label_loader = lru_cache(maxsize=512)(get_label_text)")]
DEMO='''
import os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
from dustgoggles.scrape import cached_label_loader
d = tempfile.mkdtemp()
try:
    names = [os.path.join(d, f"{i}.lbl") for i in range(700)]
    for n in names:
        with open(n, "w") as f:
            f.write("VERSION = 1 END")
    for n in names:
        cached_label_loader(n)
    with open(names[0], "w") as f:
        f.write("VERSION = 2 END")
    assert "VERSION = 1" in cached_label_loader(names[0]), "read again"
finally:
    shutil.rmtree(d)
'''
SHM=False
