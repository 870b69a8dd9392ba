#!/bin/bash
# Builds every simulator once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
. tools/env.sh
python3 tools/sync.py || exit 2
cd ws || exit 2
for d in sim-*/; do
  d=${d%/}
  [ "$d" = sim-core ] && continue
  cargo build --offline -q -p "$d" || exit 1
done
