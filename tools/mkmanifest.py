"""Writes /verif/MANIFEST.json: every check module under checks/ plus the not-applicable list."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True

NA = json.loads((ROOT / "tools" / "not_applicable.json").read_text())
props = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
have = {p["id"] for p in props}
checks = []
for p in props:
    f = ROOT / "checks" / f"{p['id'].lower()}.py"
    if not f.exists():
        continue
    m = importlib.import_module(f"checks.{p['id'].lower()}")
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']}",
        "thorough_cmd": f"python3 run.py {p['id']}",
        "technique": m.TECHNIQUE,
        "level": "other",
        "level_note": m.NOTE,
    })
claimed = {c["property"] for c in checks}
na = [n for n in NA if n["property"] not in claimed]
for p in sorted(have - claimed - {n["property"] for n in na}):
    na.append({"property": p, "reason": "no check built yet"})
(ROOT / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
