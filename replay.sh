#!/bin/bash
# replay.sh FILE: builds the simulator against /repo's working tree and replays one recorded violation.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" >/dev/null 2>&1 || exit 2
export VERIF_ROOT="$here"
exec "$here/target/release/wsim" replay "$1"
