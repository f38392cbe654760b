#!/bin/bash
# Builds the library and the conformance drivers from /repo's working tree into /verif/build.
# Every check repeats this when the tree has changed (keyed by content), so this only warms up.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import plans
for v in plans.VARIANTS:
    print(v, plans.exe(v))
P
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import tlc
m = tlc.model_check("MCTal", dict(Op='"gpo"'))
print("TLC:", m["distinct"], "states")
P
