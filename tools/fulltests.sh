#!/bin/bash
# Shim fidelity: build the repository's complete test suite (which the sandbox cannot build with its real
# dependencies) against the stand-ins in shim/, in a scratch directory, and run it.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); R=${VP_REPO:-/repo}
D=$(mktemp -d); trap "rm -rf $D" EXIT
F="-std=c++20 -w -O1 -DDOTTORRENT_USE_OPENSSL -DFMT_HEADER_ONLY -DOPENSSL_SUPPRESS_DEPRECATED -I$V/shim/include -I$R/include -I$R/src -I/opt/vp/subset/include -include $V/shim/prelude.hpp"
(cd $R && find src tests -name '*.cpp' | grep -v isal) | xargs -P 8 -I{} bash -c "o=$D/\$(echo {} | tr / _).o; g++ $F -DTEST_DIR='\"$R/tests\"' -c $R/{} -o \$o || echo FAILED {}"
g++ -o $D/tests $D/*.o -lCatch2Main -lCatch2 -lcrypto -lpthread 2>$D/err || { tail -20 $D/err; exit 1; }
cd $D && timeout 300 ./tests 2>&1 | tail -${1:-40}
