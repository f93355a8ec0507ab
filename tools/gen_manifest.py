"""Writes /verif/MANIFEST.json from the property modules present and the not-applicable list."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="symbolic execution of the Python source, assertions decided by SMT (z3, cvc5)", level="model_checking",
            level_note="Bounded: every assertion is decided for all real inputs within the obligation's stated sizes and ranges (evidence lists them); floats are modelled as exact reals with tolerance 1e-6; numpy/scipy primitives are modelled, compared with the shipped code at concrete points on each run, and counterexamples are replayed on the shipped code."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check built yet.")))
json.dump(dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
