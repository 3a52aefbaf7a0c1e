#!/opt/venv/bin/python
"""Writes MANIFEST.json: every property of properties.jsonl that has harness cases is claimed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import run
run.load_checks()
TECH = "symbolic execution of the real Python source into SMT (z3/cvc5), counterexamples replayed on the unpatched code"
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
claimed, na = [], []
have = {c.prop for c in run.CASES}
COMMON = "floats are modelled as reals; "
for p in props:
    i = p["id"]
    if i in have:
        claimed.append(dict(property=i, quick_cmd="./run.py %s --tier quick" % i, thorough_cmd="./run.py %s --tier thorough" % i,
                            technique=TECH, level="model_checking", level_note=COMMON + NOTES["claimed"].get(i, "bounds are the sizes named in the case list of the evidence file")))
    else:
        na.append(dict(property=i, reason=NOTES["not_applicable"].get(i, "harness not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup_check.py", checks=claimed, not_applicable=na,
         notes="Solver-based checking by a purpose-built symbolic executor for the numpy code (symx/); see DESIGN.md. known_findings.json lists recorded and repaired defects.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed", len(na), "not applicable")
