"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the check results of tools/selftest.py seeds."""
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([sys.executable, os.path.join(ROOT, "tools/selftest.py"), "seeds"], capture_output=True, text=True, cwd=ROOT).stdout
res = {ln.split()[1]: ln.split()[0] for ln in out.splitlines() if ln.startswith(("caught", "MISSED"))}
rows = ["| id | property | what it breaks | needs | check |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, '?')} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2, "seeds,", sum(v == "caught" for v in res.values()), "caught")
