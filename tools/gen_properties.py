"""Writes /verif/properties.jsonl (one source of truth for titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=["pycircstat2/%s.py" % f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}))))
exec(open(os.path.join(os.path.dirname(__file__), "properties_src.py")).read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
