"""seeded.py output on stdin -> the table at the end of DESIGN.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in sys.stdin:
    w = l.split(None, 2)
    if len(w) == 3:
        got[w[0]] = w[2].strip().split()[0]
s = open(V + "/DESIGN.md").read()
mark = "### Planted bugs and the check that catches them\n"
s = s.split(mark)[0].rstrip("\n") + "\n\n" + mark + "\n| planted bug | what it breaks | check | result |\n|---|---|---|---|\n"
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    s += "| %s | %s | %s | %s |\n" % (i, m["what_it_breaks"].replace("|", "/").strip(), m["property"], got.get(i, "not run"))
open(V + "/DESIGN.md", "w").write(s)
