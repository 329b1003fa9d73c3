"""updates the list of repaired defects in known_findings.json from the fix-commits of /repo"""
import json
import subprocess
from pathlib import Path

H = Path(__file__).resolve().parent.parent
PROP = {"82cac48": "P08", "56a6c4f": "P08", "c1ec9f6": "P09", "4d8573b": "P09", "2f6e4e0": "P09", "3f4edd9": "P09",
        "dd8487d": "P10", "267c406": "P10", "5b9f633": "P11", "7b6f9f6": "P10", "eda9c0b": "P12", "89e375a": "P09",
        "af4bbdf": "P13", "09309dc": "P13", "02730c7": "P13", "c923df3": "P17", "d4c7302": "P13"}
PROP.update(json.loads((H / "tools" / "fixed_props.json").read_text()))
kf = H / "known_findings.json"
d = json.loads(kf.read_text())
have = " ".join(d["fixed"])
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: ") and h[:7] not in have:
        d["fixed"].append(f"fixed: property={PROP[h[:7]]} {h} {s[5:]}")
kf.write_text(json.dumps(d, indent=1) + "\n")
