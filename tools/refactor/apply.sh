#!/bin/bash
# apply.sh GROUP DIR: scratch clone of /repo in DIR with the group's rewrites
set -e
rm -rf "$2"; git clone -q /repo "$2"
cd "$(dirname "$0")/.." && python3 - "$1" "$2" <<'P'
import importlib, sys
sys.path.insert(0, '.')
m = importlib.import_module('refactor.' + sys.argv[1])
for f, e in m.EDITS.items():
    p = sys.argv[2] + '/sqlpuzzle/' + f
    s = open(p).read() if not isinstance(e, str) else e
    for a, b in ([] if isinstance(e, str) else e):
        s = s.replace(a, b)
    open(p, 'w').write(s)
P
