"""Writes the table of planted bugs into DESIGN.md, between its markers."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| id | property, and the check that catches it | needs |", "|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m.get('caught_by', m['property'])} | {m['needs']} |")
p = H + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k[1] + "\n".join(rows) + "\n" + k[2], s, flags=re.S)
open(p, "w").write(s)
