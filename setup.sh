#!/bin/bash
# setup.sh: build the engine.
cd "$(dirname "$0")" || exit 3
. ./env.sh || exit 3
build_engine || exit 3
"$GOSYM" selftest 20000
