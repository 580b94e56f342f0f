"""writes the table of planted bugs into DESIGN.md (between the markers)"""
import json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
also = {"C25-one-scan-more": "C25, C22", "C09-single-weight": "C09", "C06-shared-element": "C06 (missed at first)", "C20-kb-only-m": "C20 (missed at first)"}
for d in sorted(os.listdir(top + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (top, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), also.get(d, m["property"])))
p = top + "/DESIGN.md"
s = open(p).read()
B, E = "<!-- seeded -->", "<!-- /seeded -->"
block = B + "\n" + "\n".join(rows) + "\n" + E
s = s.replace("SEEDED-TABLE", block) if "SEEDED-TABLE" in s else re.sub(re.escape(B) + ".*?" + re.escape(E), lambda m: block, s, flags=re.S)
open(p, "w").write(s)
