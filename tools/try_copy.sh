#!/bin/bash
# runs the check of a seed's property against a scratch copy of /repo with the seed applied (no build/tests): try_copy.sh ID...
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do p=${id%%-*}; git -C /tmp/rc checkout -q -- . ; git -C /tmp/rc apply $V/seeded/$id/patch.diff || continue
 echo "== $id"; VERIF_REPO=/tmp/rc VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt $V/check.py $p 2>&1 | grep -v ' OK$' | tail -4 | cut -c1-330; git -C /tmp/rc checkout -q -- .; done
