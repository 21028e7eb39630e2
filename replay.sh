#!/bin/bash
# replay.sh FILE: runs a recorded failing run again; exit 1 if it fails again
f="$(readlink -f "$1")"
. "$(dirname "$0")/tools/build.sh"
exec "$ORCH" replay "$f" "${ARGS[@]}"
