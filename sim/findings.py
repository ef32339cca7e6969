"""
Known findings: /verif/KNOWN_FINDINGS.txt
  finding: property=C05 match=<regex over "cls: msg"> what=<text>
  fixed: property=C01 <commit> <what failed>          (suppresses nothing)
"""
import pathlib
import re

FILE = pathlib.Path(__file__).resolve().parent.parent / "KNOWN_FINDINGS.txt"


def load(prop):
    out = []
    if not FILE.exists():
        return out
    for line in FILE.read_text().splitlines():
        m = re.match(r"finding: property=(\S+) match=(.+?) what=(.+)$", line)
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out


def match(known, cls, msg):
    for rx, what in known:
        if rx.search(f"{cls}: {msg}"):
            return what
    return None
