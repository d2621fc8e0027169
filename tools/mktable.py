"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json and the results of tools/trybug.sh (directory given)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    p = m["property"]
    log = f"{out}/{i}.{p}.log"
    res = "not tried"
    if os.path.exists(log):
        t = open(log, errors="replace").read()
        r = re.search(rf"^{p}: run (\d+) of seed (\d+) \(([^)]*)\)", t, re.M)
        res = f"{p} run {r[1]} ({r[3]})" if r and f"VIOLATION property={p}" in t else "missed"
    rows.append(f"| {i} | {m['needs']} | {res} |")
t = open(V + "/DESIGN.md").read()
k = t.index("| bug | needs |") if "| bug | needs |" in t else t.index("(table: see below")
t = t[:k] + "| bug | needs | caught by (seed 1, quick tier) |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(t)
print(sum("missed" in r for r in rows), "missed of", len(rows))
