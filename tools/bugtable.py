"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
rows = ["| bug | property (its check catches it) | needs |", "|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} |")
s = (V / "DESIGN.md").read_text()
a, b = "<!-- planted -->", "<!-- /planted -->"
head, _, tail = s.partition(a)
tail = tail.partition(b)[2]
(V / "DESIGN.md").write_text(head + a + "\n" + "\n".join(rows) + "\n" + b + tail)
