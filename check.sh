#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
build_engine || { echo "engine build failed"; exit 2; }
exec "$ENGINE" -repo "${VERIF_REPO:-/repo}" -verif "$here" -specs "$here/specs" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
