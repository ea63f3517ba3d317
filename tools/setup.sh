#!/bin/bash
# nothing to install: check that the tools are there and that all specifications parse
cd "$(dirname "$0")/../spec" || exit 1
command -v java >/dev/null || { echo "java missing"; exit 1; }
rc=0
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -Djava.io.tmpdir="${TMPDIR:-/tmp}" tla2sany.SANY "$f" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rc=1; }
done
rm -f /tmp/sany.$$
exit $rc
