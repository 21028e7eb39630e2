#!/bin/bash
# check.sh ID [more orch options]: exit 0 held, 1 violated, 2 error of the check
. "$(dirname "$0")/tools/build.sh"
id="$1"; shift
exec "$ORCH" check "$id" --seed "${VERIF_SEED:-1}" --tier "${VERIF_TIER:-quick}" "${ARGS[@]}" \
  --known "$V/known_findings.txt" --evidence "$V/evidence/$id.json" --out "$V/replays" "$@"
