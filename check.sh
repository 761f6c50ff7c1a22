#!/bin/bash
# check.sh <property> [quick|thorough]: regenerate the facts from /repo's working tree, then decide the property.
set -u
cd "$(dirname "$(readlink -f "$0")")"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
OUT="$PWD/.cache/facts-$ID-$$"
mkdir -p "$PWD/.cache" evidence
trap 'rm -rf "$OUT"' EXIT
(
  flock 9
  ./facts.sh "$OUT" "${VERIF_REPO:-/repo}" >"$PWD/.cache/facts-$ID.log" 2>&1
) 9>"$PWD/.cache/lock"
if [ ! -s "$OUT/libopenraw.json" ]; then
  tail -40 "$PWD/.cache/facts-$ID.log"
  echo "the facts of $ID could not be produced: /repo does not type-check"
  exit 3
fi
python3 checker/run.py "$ID" "$TIER" "$OUT/libopenraw.json"
