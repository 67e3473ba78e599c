"""DESIGN.md = design_head.md + table of seeded bugs (seeded*/*/meta.json and tools/caught.txt) + design_tail.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = os.path.join(V, "tools")
caught = {}
for l in open(os.path.join(t, "caught.txt")):
    if l.strip() and not l.startswith("#"):
        i, *c = l.split()
        caught.setdefault(i, []).extend(c)
out = [open(os.path.join(t, "design_head.md")).read()]
out.append("\n## 4. Planted bugs and the checks that catch them\n\n"
           "Each was written from a property's text and the code, has a demonstration, and passes the stable tests. They lie in seeded/ and, so that a run of vcheck ends in time, mostly in seeded_more/. `Cxx` catches, `-Cxx` was run and does not. Quick tier.\n\n"
           "| id | property | needs | breaks | checks |\n|---|---|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json")) + glob.glob(os.path.join(V, "seeded_more", "*", "meta.json"))):
    i = f.split(os.sep)[-2]
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], " ".join(caught.get(i, ["?"]))))
tail = os.path.join(t, "design_tail.md")
if os.path.exists(tail):
    out.append("\n" + open(tail).read())
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
