"Writes the table of planted bugs into section 7 of DESIGN.md."

import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
MISSED = {"flat-namespace-split": "at first missed: no table name had two underscores", "discriminated-key-width": "at first missed: keys of a union never differed"}
MISSED.update(json.loads((ROOT / "tools" / "missed.json").read_text()) if (ROOT / "tools" / "missed.json").exists() else {})
rows = ["| seed | property | what it breaks | needs | result |", "|---|---|---|---|---|"]
for p in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(p.read_text())
    n = p.parent.name
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | caught by {m['property']}{'; ' + MISSED[n] if n in MISSED else ''} |".replace("\n", " "))
d = ROOT / "DESIGN.md"
s = d.read_text()
a, b = s.index("## 7 Seeded bugs"), s.index("## 8 ")
head = "## 7 Seeded bugs\n\nWritten from the statements and the code; confirmed and run by `tools/seed.py`, tabulated by `tools/seeds_table.py`.\n\n"
d.write_text(s[:a] + head + "\n".join(rows) + "\n\n" + s[b:])
