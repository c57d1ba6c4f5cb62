"""Writes /verif/MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [root, os.path.join(root, "checks")]
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "checks", i.lower() + ".py")):
        mod = importlib.import_module(i.lower())
        note = ("Solver verdict over every value within the bounds (quick: %s). Outside: %s. Trusted: the symbolic executor sx and "
                "its library contracts (DESIGN.md), kept honest by replaying every solver model and every counterexample on the "
                "plain code." % (mod.BOUNDS["quick"], mod.OUTSIDE))
        if mod.ASSUMPTIONS:
            note += " Assumed: " + " ".join(mod.ASSUMPTIONS)
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                       "thorough_cmd": "./check %s --tier thorough" % i,
                       "technique": "symbolic execution of the " + ("Java code (bytecode compiled from its source on each run)" if
                                    getattr(mod, "JAVA", False) else "Python source") + " (values, sizes, choices and faults symbolic) with Z3 "
                                    "deciding every branch and assertion, counterexamples replayed on the real code",
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
