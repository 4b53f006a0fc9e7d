"""Rewrites DESIGN.md's table of planted bugs from seeded/*/meta.json and tools/caught.json (id -> list of properties that caught it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json"))
rows = ["| bug | property | needs | caught by (quick, seed 1) |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(c.get(i, [])) or 'not caught'} |")
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open(p, "w").write(s)
