#!/bin/bash
# Nothing to install: checks the toolchain and parses every specification.
set -e
cd "$(dirname "$0")/.."
command -v clang++ >/dev/null
command -v java >/dev/null
mkdir -p evidence out
for f in spec/*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:spec -DTLA-Library=spec tla2sany.SANY "$f" > out/sany.log 2>&1 || { cat out/sany.log; echo "cannot parse $f"; exit 1; }
done
echo ok
