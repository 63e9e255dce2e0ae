#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator against /repo's working tree and searches for a violation.
here=$(cd "$(dirname "$0")" && pwd)
log=$(mktemp /tmp/wsim-build.XXXXXX)
if ! bash "$here/build.sh" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "check $1: the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
export VERIF_ROOT="$here"
[ -n "$2" ] && export VERIF_TIER="$2"
exec "$here/target/release/wsim" check "$1"
