#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's
# current working tree.  Builds the engine first.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./bin/engine -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -dir "$PWD/harness"
