import json, sys
CLAIMED = [l for l in sys.argv[1:]]
props = [json.loads(x) for x in open("/verif/properties.jsonl")]
sys.path.insert(0, "/verif/tools")
try:
    from notes import NOTES
except ImportError:
    NOTES = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if CLAIMED and i not in CLAIMED:
        na.append(dict(property=i, reason="check under construction")); continue
    checks.append(dict(property=i, quick_cmd=f"./check.py {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.py {i}",
        evidence_file=f"evidence/{i}.json",
        technique="TLA+ specification; TLC model checking and TLC validation of traces recorded from the real code",
        level="model_checking",
        level_note=NOTES.get(i, "Every recorded call is judged by TLC against the exact (rational) specification; coverage is bounded by the generated histories.")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks: the public API exposes the abstract state. See DESIGN.md."), open("/verif/MANIFEST.json", "w"), indent=1)
