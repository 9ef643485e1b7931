#!/bin/bash
# check.sh ID quick|thorough : builds the simulator from /repo's working tree
# and searches for a violation of the property.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
export VERIF_DIR="$here"
exec "$here/sim/target/release/sim" check "$1" --tier "${2:-quick}"
