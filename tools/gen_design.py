"""Writes DESIGN.md from the header, the properties, the check modules, the planted
bugs and the recorded coverage (tools/coverage.json, see tools/coverage.py)."""
import ast, glob, json, os, textwrap

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = lambda *p: os.path.join(here, *p)
load = lambda p, default: json.load(open(p)) if os.path.exists(p) else default
levels = load(path("tools", "levels.json"), {})
coverage = load(path("tools", "coverage.json"), {})
history = load(path("tools", "caught.json"), {})
out = [open(path("tools", "design_header.md")).read().rstrip(), ""]

out += ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for meta in sorted(glob.glob(path("seeded", "*", "meta.json"))):
    name = os.path.basename(os.path.dirname(meta))
    m = json.load(open(meta))
    needs = m["needs"].replace("|", "/").replace("\n", " ")
    out.append(f"| {name} | {m['property']} | {needs} | {history.get(name, m['property'])} |")
out.append("")
for name in ("design_mutants.md",):
    if os.path.exists(path("tools", name)):
        out += [open(path("tools", name)).read().rstrip(), ""]

out += ["## The properties", ""]
for line in open(path("properties.jsonl")):
    p = json.loads(line)
    id = p["id"]
    tree = ast.parse(open(path("mc", "checks", id.lower() + ".py")).read())
    names = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            names["a"] = ast.literal_eval(n.value)
    out += [f"### {id} {p['title']}", ""]
    out += textwrap.wrap(p["statement"], 96) + [""]
    out += [f"*Technique:* {levels[id]['technique']}.", ""]
    doc = " ".join(ast.get_docstring(tree).split())
    out += textwrap.wrap("*Explored and compared with:* " + doc, 96) + [""]
    if names.get("a"):
        out += textwrap.wrap("*Bounds and assumptions:* " + "; ".join(names["a"]) + ".", 96) + [""]
    out += textwrap.wrap("*Beyond tests:* " + p["why_tests_cant"], 96) + [""]
    for tier in "quick", "thorough":
        c = coverage.get(id, {}).get(tier)
        if c:
            out.append(
                f"*{tier.capitalize()}:* {c['states']} states, {c['transitions']} transitions, "
                f"{c['validated']} executions compared with the oracle, {c['wall']:.0f} s."
            )
    out.append("")
open(path("DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
