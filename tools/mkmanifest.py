"""Writes MANIFEST.json from the property modules present."""
import importlib.util, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(H, "checks", f"p_{i.lower()}.py")
    if not os.path.exists(f):
        na.append(dict(property=i, reason="no check built yet"))
        continue
    doc = re.search(r'"""(.*?)"""', open(f).read(), re.S).group(1)
    checks.append(dict(
        property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
        technique="runtime monitoring: " + " ".join(doc.split()).split(":", 1)[1].strip().rstrip("."),
        level="exploration",
        level_note="Online oracle over executions of the real code under randomised, stratified and hostile workloads; bounds: model sizes, counts and ranges of the generators as stated in DESIGN.md and in the evidence file.",
    ))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: every monitor observes public attributes, return values, standard output, files or calls to the plotting libraries of the real code.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", [x["property"] for x in na])
