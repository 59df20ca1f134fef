#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's current source.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
V=$(cd "$(dirname "$0")" && pwd)
B=$V/checker/bin/fgbcheck
if [ ! -x "$B" ] || [ -n "$(find "$V/checker" -maxdepth 1 -newer "$B" \( -name '*.go' -o -name 'go.*' \) -print -quit)" ]; then
  mkdir -p "$V/checker/bin" && (cd "$V/checker" && go build -o bin/fgbcheck .) || exit 2
fi
exec "$B" -prop "$1" -tier "${2:-quick}" -verif "$V"
