#!/bin/bash
# replay.sh HARNESS [N]: run one harness on concrete inputs against the real code.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
build_engine || exit 2
exec "$ENGINE" -repo "${VERIF_REPO:-/repo}" -verif "$here" -specs "$here/specs" -replay "$1" -n "${2:-200000}"
