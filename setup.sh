#!/bin/bash
# Nothing to compile: verifies that the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo"); import aiomisc'
mkdir -p evidence
fail=0
for m in specs/*Trace.tla specs/MC*.tla; do
  ( cd specs && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" > /tmp/sany.$$ 2>&1 ) \
    || { cat /tmp/sany.$$; fail=1; }
done
rm -f /tmp/sany.$$
exit $fail
