"""Records the coverage of evidence files in tools/coverage.json: coverage.py DIR"""
import glob, json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
target = os.path.join(here, "tools", "coverage.json")
data = json.load(open(target)) if os.path.exists(target) else {}
for f in glob.glob(os.path.join(sys.argv[1], "C*.json")):
    e = json.load(open(f))
    c = e["coverage"]
    data.setdefault(e["property"], {})[e["tier"]] = dict(
        states=c["states"], transitions=c["transitions"],
        validated=c["traces_validated_against_impl"], wall=e["wall_s"])
json.dump(data, open(target, "w"), indent=0, sort_keys=True)
