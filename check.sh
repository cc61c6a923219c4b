#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's working tree, then searches.
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Else: an error of the check.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
"$here/build.sh" || exit 3
export SIOSIM_ROOT=$here
exec "$here/sim/target/debug/siosim" check --prop "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}"
