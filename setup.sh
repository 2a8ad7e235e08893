#!/bin/sh
# Warms the build cache; every check builds what it needs itself.
cd "$(dirname "$0")" || exit 3
. tools/env.sh
mkdir -p bin evidence
(cd harness && go build -o ../bin/vharness .) || exit 3
(cd /repo && go build -o /dev/null ./cmd/mysqldef) || exit 3
