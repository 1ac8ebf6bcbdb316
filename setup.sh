#!/bin/bash
# builds nothing that is kept: every check compiles its harness from /repo's working tree; this warms Go's build cache
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import vf
vf._instr_tool()
vf.gobuild("logh")
P
