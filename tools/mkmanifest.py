"""Writes MANIFEST.json from the harness modules present."""
import ast
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NA = {}
na = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(na):
    NA = json.load(open(na))
checks, nas = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "harness", i + ".py")
    if not os.path.exists(f):
        nas.append(dict(property=i, reason=NA.get(
            i, "no sound symbolic harness has been built for it yet")))
        continue
    tree = ast.parse(open(f).read())
    b = ""
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS":
            b = ast.literal_eval(n.value)
    checks.append(dict(
        property=i, quick_cmd=f"tools/check {i} quick",
        thorough_cmd=f"tools/check {i} thorough",
        technique="bounded symbolic execution of the real Python sources, "
                  "assertions decided by Z3, counterexamples replayed",
        level="model_checking",
        level_note="Holds for every value within the bounds: " + b +
        ". Trusts Z3 and the run-time models of Python built-ins in symex/ "
        "(sampled paths are re-run on the plain code in every run)."))
json.dump(dict(version=1, setup_cmd="tools/setup", checks=checks,
               not_applicable=nas,
               notes="See DESIGN.md for the engine, bounds and known findings."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in nas])
