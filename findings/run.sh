#!/bin/bash
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
R=${1:-/repo}
o=$(mktemp)
echo "{\"Replace\":{\"$R/flatgeobuf/x_defects_test.go\":\"$d/defects_test.go\"}}" > "$o"
cd "$R" && go test -vet=off -count=1 -overlay "$o" -run Defect ./flatgeobuf
rc=$?
rm -f "$o"
exit $rc
