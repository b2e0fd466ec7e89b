"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
missed = json.loads((root / "tools/seeded_missed.json").read_text())
rows = {}
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.setdefault(d["property"], []).append((m.parent.name, d["needs"].rstrip(".") + " → " + d["what_it_breaks"]))
out = ["## Planted bugs and what catches them", "",
       "Every change under `seeded/` is caught by the quick check of the property it breaks (seed 1)"
       + (", except: " + ", ".join(f"`{k}` ({v})" for k, v in missed.items()) if missed else "") + ".", "",
       "| check | changes |", "|---|---|"]
for p in sorted(rows):
    out.append(f"| {p} | " + "; ".join(f"`{i}`: " + re.sub(r"\s+", " ", w).replace("|", "\\|").rstrip(".") for i, w in rows[p]) + " |")
f = root / "DESIGN.md"
s = f.read_text().split("## Planted bugs and what catches them")[0].rstrip() + "\n\n"
f.write_text(s + "\n".join(out) + "\n")
