#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks, properties.jsonl and checks/notes.json."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(root, "lib"), os.path.join(root, "checks")]
reg, notes = {}, {}
for f in sorted(os.listdir(os.path.join(root, "checks"))):
    if f.endswith(".py"):
        m = importlib.import_module(f[:-3])
        reg.update(m.CHECKS)
        notes.update(getattr(m, "NOTES", {}))
props = [json.loads(x) for x in open(os.path.join(root, "properties.jsonl"))]
na = json.load(open(os.path.join(root, "checks", "not_applicable.json")))
out = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in reg:
        tech, note = notes[i]
        out["checks"].append({"property": i, "quick_cmd": "bin/check " + i + " --tier quick", "thorough_cmd": "bin/check " + i + " --tier thorough",
                              "technique": tech, "level": "model_checking", "level_note": note})
    else:
        out["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks;", [x["property"] for x in out["not_applicable"]])
