#!/bin/sh
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
d=$(cd "$(dirname "$0")" && pwd)
if [ ! -x "$d/bin/eng" ]; then
	"$d/build.sh" || { echo "cannot build the engine"; exit 2; }
fi
exec "$d/bin/eng" check -verif "$d" -repo "${VERIF_REPO:-/repo}" -tier "${2:-${VERIF_TIER:-quick}}" "$1"
