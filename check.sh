#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 3
. ./env.sh || exit 3
build_engine || exit 3
exec "$GOSYM" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
