import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTES = {}
try:
    exec(open(os.path.join(H, "tools", "notes.py")).read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "harness", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3-vt /verif/check.py %s" % i, "thorough_cmd": "python3-vt /verif/check.py %s --tier thorough" % i,
                       "technique": "symbolic execution of the real Python source, SMT (z3) verdict per path, replay on the unmodified code", "level": "model_checking",
                       "level_note": NOTES.get(i, "Holds for every value inside the bounds stated per harness (evidence); floats are treated as reals, random draws and stubbed environment functions as arbitrary values of their range; lenstronomy is replaced by a stand-in.")})
    else:
        na.append({"property": i, "reason": NOTES.get("na:" + i, "no solver-based check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy, scipy, mpmath' && /opt/venv/bin/python -c 'import numpy, scipy, astropy, colossus'", "checks": checks, "not_applicable": na,
     "notes": "check.py runs every harness of harness/<id>.py; see DESIGN.md"}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
