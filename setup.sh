#!/bin/bash
# unpack hypothesis (pure offline) beside the checks; idempotent
here="$(cd "$(dirname "$0")" && pwd)"
[ -f "$here/.deps/.ok2" ] && exit 0
set -e
mkdir -p "$here/.deps" "$here/evidence"
/opt/venv/bin/python - "$here/.deps" <<'P'
import sys, glob, zipfile
dst = sys.argv[1]
for pat in ("hypothesis-*cp312-cp312-manylinux*x86_64.whl", "hypothesis-*-py3-none-any.whl"):
    c = sorted(glob.glob("/opt/veriftools/wheels/" + pat))
    if c:
        zipfile.ZipFile(c[-1]).extractall(dst)
        break
else:
    sys.exit("no hypothesis wheel")
c = sorted(glob.glob("/opt/veriftools/wheels/sortedcontainers-*.whl"))
zipfile.ZipFile(c[-1]).extractall(dst)
P
touch "$here/.deps/.ok2"
