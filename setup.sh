#!/bin/bash
# Nothing to compile: check that the tools and the specifications are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
command -v java >/dev/null || exit 1
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; echo "SANY failed on $m"; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
