#!/bin/bash
# check.sh <simulator> <property> : rebuilds the simulator from /repo's working tree and runs it.
# check.sh replay <simulator> <file> : replays a recorded violation.
cd "$(dirname "$0")" || exit 2
. tools/env.sh
if [ "$1" = replay ]; then sim=$2; else sim=$1; fi
python3 tools/sync.py >&2 || exit 2
mkdir -p .build
if ! (cd ws && cargo build --offline -q -p "$sim") > .build/"$sim".log 2>&1; then
  cat .build/"$sim".log >&2
  echo "build of $sim failed" >&2
  exit 2
fi
export VERIF_DIR=$PWD
if [ "$1" = replay ]; then exec .build/target/debug/"$sim" replay "$3"; fi
exec .build/target/debug/"$sim" check "$2"
