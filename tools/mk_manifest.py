"""writes /verif/MANIFEST.json from the available check-modules"""
import ast
import json
from pathlib import Path

H = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (H / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((H / "tools" / "notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (H / "rtv" / "props" / f"{i.lower()}.py").exists():
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick",
                           thorough_cmd=f"bash check.sh {i} thorough",
                           technique=n["technique"], level="exploration", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
(H / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "n/a")
