"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
rows.sort()
out = ["<!-- seedtable -->", "| caught by | planted bug | what it breaks | what it needs |", "|---|---|---|---|"]
out += ["| %s | `%s` | %s | %s |" % r for r in rows]
out.append("<!-- /seedtable -->")
p = root + "/DESIGN.md"
s = open(p).read()
t = "\n".join(out)
if "SEEDTABLE\n" in s:
    s = s.replace("SEEDTABLE\n", t + "\n")
else:
    s = re.sub(r"<!-- seedtable -->.*<!-- /seedtable -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
