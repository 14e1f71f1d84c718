#!/bin/bash
# builds the extractor and the crate under test (private target directories), offline
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.path[:0] = [".", "dyn"]
import prove, build
print(prove.extractor())
try:
    print(build.build_pomelo())
except build.CannotBuild as e:
    print("crate:", e)
P
