"""regenerates the table of planted bugs at the end of DESIGN.md"""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
i = s.index("| planted bug | property |")
rows = ["| planted bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {d.get('caught_by', d['property'])} |")
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
print(len(rows) - 2)
