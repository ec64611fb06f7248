#!/bin/bash
# Nothing to build: parse every specification once so that a broken checkout is noticed here.
cd "$(dirname "$0")/../spec" || exit 2
d=$(mktemp -d)
cp ./*.tla "$d"/ && cd "$d" || exit 2
rc=0
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$d/out.txt" 2>&1 || { cat "$d/out.txt"; rc=1; }
done
rm -rf "$d"
exit $rc
