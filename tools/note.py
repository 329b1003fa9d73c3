"""python3 tools/note.py ID technique note ; and: --fixed HASH ID ..."""
import json
import sys
from pathlib import Path

H = Path(__file__).resolve().parent
if sys.argv[1] == "--fixed":
    p = H / "fixed_props.json"
    d = json.loads(p.read_text())
    d.update(zip(sys.argv[2::2], sys.argv[3::2]))
else:
    p = H / "notes.json"
    d = json.loads(p.read_text())
    d[sys.argv[1]] = dict(technique=sys.argv[2], note=sys.argv[3])
p.write_text(json.dumps(d, indent=1) + "\n")
