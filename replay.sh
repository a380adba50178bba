#!/bin/bash
# replay.sh FILE: run a saved counterexample against /repo's current tree.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 3
. ./env.sh || exit 3
build_engine || exit 3
exec "$GOSYM" replay "$f"
