"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json and seeded/RESULTS.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(f"{here}/seeded/RESULTS.json"))
rows = ["| planted bug | property | what it needs | quick checks that report it |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{here}/seeded")):
    p = f"{here}/seeded/{i}/meta.json"
    if not os.path.exists(p):
        continue
    m = json.load(open(p))
    r = res.get(i, {})
    got = ", ".join(f"{k}" if v == 1 else f"(not {k})" for k, v in sorted(r.items())) or "not run"
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {got} |")
A, B = "<!-- seeded -->", "<!-- /seeded -->"
d = open(f"{here}/DESIGN.md").read()
d = re.sub(re.escape(A) + ".*?" + re.escape(B), lambda _: A + "\n" + "\n".join(rows) + "\n" + B, d, flags=re.S)
open(f"{here}/DESIGN.md", "w").write(d)
