"""Rewrite the table of planted bugs of DESIGN.md from seeded/*/meta.json (development only)."""
import json, re
from pathlib import Path
V = Path(__file__).resolve().parents[1]
MISSED = {"bn-epsilon": "missed first; variances near epsilon added", "cst-last-size": "missed first; array-bounds monitor and shrinking tails added", "nnet-six-digits": "missed first; constants of many digits added"}
MISSED |= json.loads((V / "tools/missed.json").read_text()) if (V / "tools/missed.json").exists() else {}

rows = ["| id | property, check that catches it | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted((V / "seeded").glob("*/meta.json"), key=lambda m: (json.loads(m.read_text())["property"], m.parent.name)):
    d = json.loads(m.read_text())
    n = m.parent.name
    rows.append(f"| {n} | {d['property']}{' (' + MISSED[n] + ')' if n in MISSED else ''} | {d['what_it_breaks']} | {d['needs']} |")
p = V / "DESIGN.md"
t = p.read_text()
b, e = "<!-- seeds -->", "<!-- /seeds -->"
block = b + "\n\n" + "\n".join(rows) + "\n\n" + e
t = t.replace("@SEEDS@", block) if "@SEEDS@" in t else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda m: block, t, flags=re.S)
p.write_text(t)
