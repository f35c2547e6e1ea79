"""Writes MANIFEST.json: the checks of the families, and the reasons of the rest."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402
import lib  # noqa: E402

NOTES = json.load(open(os.path.join(lib.VERIF, "run", "levels.json")))

props = [json.loads(line)["id"] for line in open(os.path.join(lib.VERIF, "properties.jsonl"))]
have = [p for ps in check.FAMILIES.values() for p in ps]
checks = []
for p in props:
    if p in have:
        checks.append({
            "property": p,
            "quick_cmd": f"python3 run/check.py {p}",
            "thorough_cmd": f"python3 run/check.py {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": "TLA+ specification explored with TLC, bound to the library by replay"
                         " and trace validation",
            "level": "model_checking",
            "level_note": NOTES[p],
        })
manifest = {
    "version": 1,
    "setup_cmd": "python3 run/setup.py",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "its check is not built yet"}
                       for p in props if p not in have],
    "notes": "The tier is chosen with VERIF_TIER (quick or thorough), the seed with VERIF_SEED.",
}
with open(os.path.join(lib.VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
