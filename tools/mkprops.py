"""Writes /verif/properties.jsonl (kept as a generator so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "state": state or [], "hook_needed": None}})
exec(open(os.path.join(os.path.dirname(__file__), "props_src.py")).read())
assert len({q["id"] for q in P}) == len(P)
for q in P:
    assert len(q["title"]) <= 80, q["title"]
    assert q["statement"].count(". ") <= 2, (q["id"], q["statement"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
