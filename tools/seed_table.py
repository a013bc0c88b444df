"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"].replace("|", "/").replace("\n", " ")))
rows.sort()
t = "\n| property, check | planted bug | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows)
p = root + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->") + 14, s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + t + s[b:])
