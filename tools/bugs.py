"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
p = f"{here}/DESIGN.md"
t = open(p).read()
head = "| bug | caught by | what it does |\n|---|---|---|\n"
t = re.sub(re.escape(head) + r"(?:\|.*\n|@@BUGS@@\n)*", lambda _: head + "\n".join(rows) + "\n", t)
open(p, "w").write(t)
