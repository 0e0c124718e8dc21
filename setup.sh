#!/bin/bash
# Nothing is built ahead of the checks; verifies the tools are present and the
# specifications parse.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
cd "$here/spec" || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
exec /opt/venv/bin/python -B -c 'import numpy, pandas'
