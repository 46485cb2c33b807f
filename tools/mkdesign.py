"""Writes DESIGN.md."""
import importlib, json, os, re, runpy, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
NOTES = json.load(open(V + "/tools/notes.json"))
P = runpy.run_path(V + "/tools/design/props.py")["P"]
out = [open(V + "/tools/design/head.md").read()]
out.append("## Properties and how each is decided\n")


def const(src, name):
    m = re.search(r"^%s = (\(.*?\)|\[.*?\]|\".*?\")\n(?=\n|[A-Z#@d])" % name, src, re.S | re.M)
    return eval(m.group(1)) if m else None


for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    src = open(V + "/mc/props/%s.py" % i.lower()).read()
    out.append("### %s %s\n" % (i, d["title"]))
    out.append("*Decided by* %s.\n" % NOTES[i][0])
    out.append(P.get(i, "") + "\n")
    b, a = const(src, "BOUNDS"), const(src, "ASSUMPTIONS")
    assert b and a is not None, i
    out.append("*Bounds:* %s.\n" % b.rstrip("."))
    out.append("*Assumes:* %s.\n" % "; ".join(a))
    out.append("*Beyond tests:* %s\n" % d["why_tests_cant"])
out.append("## Defects found\n\nEvery entry was reproduced on the original code by the named check, repaired by the named commit (`fixed`) or recorded (`open`, reported as KNOWN-FINDING).\n")
for l in open(V + "/known-findings.txt"):
    if l.startswith(("fixed:", "open:")):
        out.append("* " + l.strip())
out.append("")
out.append("The open ones are not repaired because a small and safe repair does not exist: C11 needs a decision on the interface (which raster is the ID raster); the C23 ones are errors that GDAL's GeoJSON, CSV and shapefile drivers swallow on closing, which the library cannot see.\n")
out.append(open(V + "/tools/design/tail.md").read())
out.append("## Planted bugs\n\nWritten from the properties and the code (`tools/seed.py` validates each: builds, all stable tests pass, demo 0/1). "
           "*first* tells what the quick check said when the bug was planted; checks which missed one were strengthened.\n")
hist = {}
p = V + "/tools/design/seeded.json"
if os.path.exists(p):
    hist = json.load(open(p))
out.append("| bug | property | breaks | needs | first | now |\n|---|---|---|---|---|---|")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    h = hist.get(i, ["?", "?"])
    out.append("| %s | %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), h[0], h[1]))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
