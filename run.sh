#!/bin/bash
# run.sh PROPERTY TIER: (re)build the checker if needed and decide one property on /repo's current tree
V=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
[ -x "$V/bin/checker" ] && [ -z "$(find "$V/checker" -newer "$V/bin/checker" \( -name '*.go' -o -name go.mod \) -print -quit)" ] || bash "$V/setup.sh" || {
  echo "cannot build the checker"; echo "VIOLATION property=$1 replay=$V/setup.sh"; exit 1; }
exec timeout -k 5 850 "$V/bin/checker" -repo /repo -verif "$V" -property "$1" -tier "${2:-quick}"
