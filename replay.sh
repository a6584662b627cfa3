#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and execute a replay file;
# exit 1 if the recorded violation shows again.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
. "$here/build.sh"
build_for "$(sed -n 's/^ *"property": "\(.*\)",$/\1/p' "$1" | head -1)"
ulimit -v 4000000
ulimit -c 0
exec "$bin" replay "$1"
