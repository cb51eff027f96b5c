"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json; or, with --write, puts it there."""
import glob, json, os, sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    cell = lambda s: " ".join(str(s).replace("|", "\\|").split())
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], cell(m["what_it_breaks"]), cell(m["needs"])))
table = "\n".join(rows)
if "--write" in sys.argv:
    p = root + "/DESIGN.md"
    s = open(p).read()
    a, b = "<!-- planted -->\n", "\n<!-- /planted -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + table + s[j:])
else:
    print(table)
