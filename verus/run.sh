#!/bin/sh
# development helper: extract and verify with the expansion in /tmp/exp
/tmp/ext/debug/extract /verif/verus/core.rs /tmp/vt/out.rs /tmp/vt/index.json arena=/tmp/exp/arena.rs tp_client=/tmp/exp/exp.rs || true
cd /tmp/vt && verus out.rs -A warnings "$@" 2>&1
