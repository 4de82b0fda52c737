"""Writes MANIFEST.json from properties.jsonl and the existing check modules."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
properties = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "levels.json")))
checks, missing = [], []
for p in properties:
    id = p["id"]
    if os.path.exists(os.path.join(here, "mc", "checks", id.lower() + ".py")):
        note = notes.get(id, {})
        checks.append(
            {
                "property": id,
                "quick_cmd": f"./check {id} quick",
                "thorough_cmd": f"./check {id} thorough",
                "evidence_file": f"evidence/{id}.json",
                "technique": note.get(
                    "technique",
                    "explicit enumeration of all executions of the real code in a bounded space",
                ),
                "level": "model_checking",
                "level_note": note.get(
                    "note",
                    "Every state, input or operation sequence of the stated bounded space is executed on the "
                    "code of /repo and compared with the oracle; nothing is said about values outside the "
                    "alphabets and sizes, and roundoff tolerances are trusted.",
                ),
            }
        )
    else:
        missing.append({"property": id, "reason": notes.get(id, {}).get("reason", "no check has been built yet")})
manifest = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Python code is imported from the working tree of /repo at run time, nothing is built. No hooks are needed.",
}
json.dump(manifest, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "not claimed")
