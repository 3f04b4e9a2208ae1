"""dev helper: rewrite the catch table at the end of DESIGN.md from tools/catch.json and seeded/*/meta.json"""
import json, os
c = json.load(open('/verif/tools/catch.json'))
rows = []
for i in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % i))
    rows.append("| %s | %s | %s | %s |" % (i, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), {True: "caught", False: "MISSED"}.get(c.get(i), "not run")))
s = open('/verif/DESIGN.md').read()
k = s.index("## Planted bugs")
s = s[:k] + "## Planted bugs\n\n`seeded/`; outcome of the property's quick check on each (from `tools/catch.json`).\n\n| bug | property | needs | quick check |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open('/verif/DESIGN.md', 'w').write(s)
