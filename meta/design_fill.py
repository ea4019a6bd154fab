"""fills the table of planted changes of DESIGN.md"""
import json, os, re
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(d + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (d, i)))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], m["property"]))
p = d + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "@SEEDS@" in s:
    s = s.replace("@SEEDS@", t)
else:
    s = re.sub(r"\| change \|.*?(?=\n\n)", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
