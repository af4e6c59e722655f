#!/bin/bash
# replay.sh FILE: runs one recorded counterexample against the real code
# in /repo and prints what happened; exit 1: it fails as recorded, 0: it
# does not.
f="$(realpath "$1")"
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./bin/engine -dir "$PWD/harness" -replay "$f"
