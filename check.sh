#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the simulator from /repo's working
# tree and run the property's check.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
. "$here/build.sh"
build_for "$1"
ulimit -v 4000000
ulimit -c 0
exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}"
