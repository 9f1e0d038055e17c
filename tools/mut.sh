#!/bin/bash
# mut.sh FILE(relative to packages) SED-EXPR CONTRACT... : apply a textual mutation in a scratch copy of the sources and run the symbolic leg
set -e
F=$1; E=$2; shift 2
D=$(mktemp -d /tmp/mut.XXXXXX); mkdir -p $D/packages
for p in /repo/packages/*; do mkdir -p $D/packages/$(basename $p); cp -a $p/src $D/packages/$(basename $p)/; done
cp -a /repo/packages/openapi-generator/package.json $D/packages/openapi-generator/ 2>/dev/null || true
ln -s /repo/node_modules $D/node_modules
sed -i -E "$E" $D/packages/$F
if diff -q $D/packages/$F /repo/packages/$F >/dev/null; then echo "MUTATION DID NOT APPLY"; fi
diff $D/packages/$F /repo/packages/$F | head -6 || true
VERIF_REPO=$D python3-vt /verif/engine/verify.py "$@" | grep -v '^   fn' | cut -c1-700 | tail -15
rm -rf $D
