PROP="C19"; SHM=False
NEEDS="two files of the same name in different folders, scraped with one pattern"
BREAKS="the second file's field is reported as the first one's"
EDITS=[("scrape.py","""@cache
def scrape_from_file(label, pattern):
    return make_scraper(cached_label_loader(label))(pattern)
""","""_scraped = {}


def scrape_from_file(label, pattern):
    # labels are named after their products; how their folder is written
    # (or mounted) is of no interest
    product = Path(label).name, pattern
    if product not in _scraped:
        _scraped[product] = make_scraper(cached_label_loader(label))(pattern)
    return _scraped[product]
""")]
DEMO='''
import os
import sys
import tempfile
from dustgoggles.scrape import scrape_from_file

with tempfile.TemporaryDirectory() as d:
    got = []
    for n in (1, 2):
        os.mkdir(f"{d}/{n}")
        with open(f"{d}/{n}/p.lbl", "wb") as f:
            f.write(b"VERSION = %d\\r\\nEND\\r\\n" % n)
        got.append(scrape_from_file(f"{d}/{n}/p.lbl", r"VERSION = (\\d+)"))
print(got)
sys.exit(0 if got == [1, 2] else 1)
'''
