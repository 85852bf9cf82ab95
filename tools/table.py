"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
MARK = "## Planted changes"
rows = []
for meta in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(meta.read_text())
    rows.append(f"| {meta.parent.name} | {m['property']} | {m['what_it_breaks']} |")
design = ROOT / "DESIGN.md"
text = design.read_text().split(MARK)[0].rstrip()
text += f"""

{MARK}
Each of these builds, passes the repository's stable tests, and is reported by the quick check of the named property
(`tools/plant.py` applies a change to a copy of the tree, runs the demonstration, the tests and the check).

| change | caught by | what it breaks |
|---|---|---|
""" + "\n".join(rows) + "\n"
design.write_text(text)
