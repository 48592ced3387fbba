#!/bin/bash
# the checks build what they need from /repo's working tree; this only shows that the tools and the specifications are in order
cd "$(dirname "$0")/../spec" || exit 1
set -e
command -v cmake g++ java python3 >/dev/null
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in *.tla; do
  java -cp $CP tla2sany.SANY $f > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
