#!/bin/sh
# Build quietly while working on the simulator.
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=/verif/sim/target
cd /verif/sim && cargo build 2>&1 | grep -E "^error|^warning: unused" -A9 | head -${1:-80}
