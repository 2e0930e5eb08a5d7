#!/bin/bash
# tests the SQL engine of the stand-in server
set -e
d=$(mktemp -d)
. /opt/vp/env.sh >/dev/null 2>&1
cd /repo
{ echo '{"Replace": {'
for f in /verif/harness/pgfake/*.go /verif/tools/pgfake/*_test.go; do
  echo "\"/repo/internal/zverif/pgfake/$(basename "$f")\": \"$f\","
done
echo '"/repo/internal/zverif/none": ""}}'; } > "$d/ov.json"
cp go.mod go.sum "$d"
go test -c -o "$d/x.test" -vet=off -modfile="$d/go.mod" -overlay "$d/ov.json" ./internal/zverif/pgfake
cd "$d"
rc=0
./x.test || rc=$?
cd /
rm -r "$d"
exit $rc
