"""seedtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seedresults.json
({id: [check, ...]}, from seedcheck.sh)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(here + "/tools/seedresults.json")) if os.path.exists(here + "/tools/seedresults.json") else {}
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    w = re.sub(r"\s+", " ", m["what_it_breaks"]).replace("|", "\\|")
    rows.append(f"| {d} | {w} | {res.get(d, '?')} |")
t = "| bug | breaks | caught by |\n|-----|--------|-----------|\n" + "\n".join(rows)
p = here + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "\n<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
print(len(rows), "rows,", sum(r.endswith("| ? |") for r in rows), "open")
