#!/bin/bash
# Builds the framework: the Java evaluation of the rational arithmetic module, and its comparison with the pure TLA+ text.
set -e
cd "$(dirname "$0")"
mkdir -p build/classes evidence replays
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/tlc2/module/*.java
mkdir -p build/self
cp spec/BigRat.tla spec/BigRatSelf.tla spec/BigRatSelf.cfg build/self/
sed 's/MODULE BigRat /MODULE BigRatP /' spec/BigRat.tla > build/self/BigRatP.tla
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
out=$(java -XX:+UseParallelGC -Xss64m -Xmx4g -cp build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -metadir "$T" -noTE -workers 8 -config build/self/BigRatSelf.cfg build/self/BigRatSelf.tla 2>&1) || { echo "$out" | tail -40; exit 1; }
echo "$out" | grep -E 'No error|distinct states' 
