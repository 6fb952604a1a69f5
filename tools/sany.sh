#!/bin/bash
# parse every specification module
cd "$(dirname "$0")/../spec" || exit 1
for f in ${@:-*.tla}; do
  java -cp ../build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $f 2>&1 | grep -v "^Parsing\|^Semantic\|^Linting\|^\*\*\*\*\*\* SANY" | grep . | sed "s/^/$f: /" | grep -A3 -i "error\|unknown\|abort\|line"
done
