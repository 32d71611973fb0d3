#!/bin/bash
# nothing is installed: checks that the tools the machinery needs are present and warms python's byte code
set -e
cd "$(dirname "$0")"
command -v clang++-18 opt-18 ar python3-vt >/dev/null
python3-vt -c 'import z3,sys; sys.path.insert(0,"vcg"); import spec,run1,harness'
python3-vt tools/gen_properties.py >/dev/null && python3-vt tools/gen_manifest.py >/dev/null
echo ready
