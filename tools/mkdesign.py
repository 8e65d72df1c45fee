"""assembles DESIGN.md: hand-written sections, planted bugs and the per-property tables"""
import json, os, sys, importlib, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
s = open(os.path.join(H, "tools", "design.md")).read()
rows = ["| id | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), "quick check of " + m["property"]))
s = s.replace("@@SEEDS@@", "\n".join(rows))
out = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n\n%s\n" % (i, p["title"], " ".join(p["statement"].split())))
    f = os.path.join(H, "harness", i.lower() + ".py")
    if not os.path.exists(f):
        out.append("No check has been built for this property; listed under not_applicable in MANIFEST.json.\n")
        continue
    mod = importlib.import_module("harness." + i.lower())
    ev = os.path.join(H, "evidence", i + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        out.append("Cost (quick): %d paths, %d assertions proved, %d solver queries, about %d s. Functions of pyHalo executed: %d.\n" % (c["states"], c["assertions_proved"], c["queries"], 5 * round(1 + e["wall_s"] / 5), len(c["functions_encoded"])))
    out.append("Harness (`harness/%s.py`; oracle: the assertions of each function) and the values each one decides for:\n" % i.lower())
    for h in mod.HARNESSES:
        out.append("* `%s`: %s" % (h.name, h.bounds))
    for a in getattr(mod, "ASSUMPTIONS", []):
        out.append("* assumption: " + a)
    out.append("")
s = s.replace("@@PROPS@@", "\n".join(out))
open(os.path.join(H, "DESIGN.md"), "w").write(s)
print(len(s.splitlines()), "lines")
