"""Rewrites the table of planted bugs at the end of DESIGN.md (documentation only; no check reads seeded/)."""
import glob, json, os
rows = []
for d in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append((m["property"], os.path.basename(d), m["what_it_breaks"].strip(), ", ".join(m.get("caught_by", [m["property"]]))))
rows.sort()
text = open("/verif/DESIGN.md").read()
mark = "<!-- planted bugs -->\n"
head = text.split(mark)[0]
out = head + mark + "\n| property | planted bug | what breaks | caught by |\n|---|---|---|---|\n"
out += "".join(f"| {p} | {n} | {w.replace('|', '/')} | {c} |\n" for p, n, w, c in rows)
open("/verif/DESIGN.md", "w").write(out)
