#!/bin/sh
# builds the harness once; every check rebuilds what it needs from /repo's current tree anyway
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence replay
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import check
b, e = check.build("default")
if e:
    print(e)
    sys.exit(1)
print("built", b)
P
