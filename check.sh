#!/bin/bash
# check.sh <property>: exit 0 held, 1 VIOLATION, 2 no answer. check.sh -replay <file> replays a failure.
cd "$(dirname "$0")" || exit 2
V=$PWD
bash build.sh >&2 || { echo "cannot build the simulator from /repo" >&2; exit 2; }
export TZ=UTC VERIF_DIR="$V"
if [ "$1" = -replay ]; then exec build/simcheck -replay "$2"; fi
exec build/simcheck -check "$1" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -dir "$V"
