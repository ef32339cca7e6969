"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
rows = ["| Bug | Caught by | Needs |", "|---|---|---|"]
for meta in sorted(HERE.glob("seeded/*/meta.json")):
    d = json.loads(meta.read_text())
    needs = d["needs"].strip().replace("|", "/").replace("\n", " ")
    rows.append(f"| {meta.parent.name} | {d['property']} | {needs} |")
path = HERE / "DESIGN.md"
head = path.read_text().split("<!-- bugs -->")[0]
path.write_text(head + "<!-- bugs -->\n" + "\n".join(rows) + "\n")
