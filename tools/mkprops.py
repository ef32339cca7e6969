#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
IMP="dustgoggles/codex/implements.py"; MEM="dustgoggles/codex/memutilz.py"; COD="dustgoggles/codex/codecs.py"
STR="dustgoggles/structures.py"; COM="dustgoggles/composition.py"; TRK="dustgoggles/tracker.py"
SCR="dustgoggles/scrape.py"; MOS="dustgoggles/mosaic.py"; DYN="dustgoggles/dynamic.py"; FUN="dustgoggles/func.py"
exec((pathlib.Path(__file__).parent / "props_text.py").read_text())
out = pathlib.Path(__file__).parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
