#!/bin/bash
# Builds the extractor, the smallvec stub and the harness.  Every check does the same if it has to.
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, ".")
import check
check.build_extract()
r = {"dir": check.BUILD}
check.build_harness(r)
sys.exit("bin" not in r)
P
