#!/bin/sh
# Parses every specification; nothing has to be built.
cd "$(dirname "$0")/spec" || exit 1
for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
mkdir -p ../evidence
