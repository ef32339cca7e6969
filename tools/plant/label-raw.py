PROP="C18"; SHM=False
NEEDS="a file that hands out its contents in several short reads"
BREAKS="the label text stops after the first read"
EDITS=[("scrape.py","""    with open(label, "rb") as file:
        return file""","""    # we read once, so buffering would only copy everything again
    with open(label, "rb", buffering=0) as file:
        return file""")]
DEMO='''
import os
import sys
import tempfile
import threading
import time
from dustgoggles.scrape import get_label_text

with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "label")
    os.mkfifo(path)

    def feed():
        with open(path, "wb", buffering=0) as f:
            f.write(b"VERSION = 3\\r\\n")
            time.sleep(1)
            f.write(b"END\\r\\n")
    t = threading.Thread(target=feed)
    t.start()
    text = get_label_text(path)
    try:
        t.join(10)
    except BrokenPipeError:
        pass
print(repr(text))
sys.exit(0 if text == "VERSION = 3\\r\\nEND\\r\\n" else 1)
'''
