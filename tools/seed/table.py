"""Writes the table of planted bugs into DESIGN.md (between the markers); the figures come from try.sh runs in RESULTS."""
import glob, json, os, re
D = "/verif/DESIGN.md"
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (m["property"], i, m["needs"].replace("|", "/")))
rows.sort()
t = "| caught by | change | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
s = open(D).read()
h = "<!-- planted -->\n"
i = s.index(h) + len(h)
j = s.index("<!-- /planted -->")
open(D, "w").write(s[:i] + t + s[j:])
