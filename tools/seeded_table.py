#!/usr/bin/env python3
# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for i in os.listdir(root + "/seeded"):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append((m["property"], i, m["needs"].split(",")[0] if len(m["needs"]) > 110 else m["needs"]))
t = "| caught by | change | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in sorted(rows))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
