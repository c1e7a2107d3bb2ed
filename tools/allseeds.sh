#!/bin/bash
# allseeds.sh [PATTERN]: seedtest.sh over every planted bug, one after another
cd "$(dirname "$0")/.."
for s in $(ls seeded | grep -E "${1:-.}"); do echo "== $s"; tools/seedtest.sh $s; done
