#!/bin/sh
# Nothing is built: checks that the tools are there and that every module parses.
cd "$(dirname "$0")" || exit 1
T=$(mktemp -d) || exit 1
cp spec/*.tla "$T" || exit 1
cd "$T" || exit 1
rc=0
for m in MC_*.tla Conf_*.tla; do
  java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$T/log" 2>&1 || { echo "$m does not parse"; cat "$T/log"; rc=1; }
done
cd /
rm -rf "$T"
exit $rc
