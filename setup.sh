#!/bin/bash
# nothing to compile: parse every specification module once, so that a broken module is noticed here
cd "$(dirname "$0")/spec" || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
bad=0
for f in *.tla; do
  out=$(java -cp "$CP" tla2sany.SANY "$f" 2>&1) || { echo "$f: $out" | tail -5; bad=1; }
done
exit $bad
