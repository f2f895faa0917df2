"""Fill DESIGN.md's table of planted bugs from seeded/*/meta.json and the logs of plant.py.

usage: catch_table.py LOG...   (the last line for an id wins)
"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CATCHES = f"{HERE}/tools/catches.json"

seen = json.load(open(CATCHES)) if os.path.exists(CATCHES) else {}
for log in sys.argv[1:]:
    for line in open(log, errors="replace"):
        mid = line.split(";")[0].split()[0] if line.strip() else ""
        for prop, rc, rest in re.findall(r"(C\d\d): rc (\d+) \[(.*?)(?=; C\d\d: rc|$)", line.strip()):
            caught = re.findall(r"(C\d\d\.\w+)", rest) if rc == "1" else []
            seen.setdefault(mid, {})[prop] = caught[:1]
json.dump(seen, open(CATCHES, "w"), indent=1, sort_keys=True)

rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for mid in sorted(os.listdir(f"{HERE}/seeded")):
    meta = json.load(open(f"{HERE}/seeded/{mid}/meta.json"))
    by = sorted({c for cs in seen.get(mid, {}).values() for c in cs})
    needs = meta["needs"].replace("|", "/")
    rows.append(f"| {mid} | {meta['property']} | {needs} | {', '.join(by) or 'missed'} |")
path = f"{HERE}/DESIGN.md"
text = open(path).read()
table = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->"
if "@@TABLE@@" in text:
    text = text.replace("@@TABLE@@", table)
else:
    text = re.sub(r"<!-- table -->.*?<!-- /table -->", lambda m: table, text, flags=re.S)
open(path, "w").write(text)
