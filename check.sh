#!/bin/sh
# check.sh PROPERTY [quick|thorough]: builds the harness and the commands of /repo, and runs one check.
cd "$(dirname "$0")" || exit 3
VERIF_DIR=$(pwd); export VERIF_DIR
. tools/env.sh
mkdir -p bin evidence || exit 3
out=bin/vharness.$$
trap 'rm -f "$out"' EXIT
(cd harness && go build -o "../$out" .) || exit 3
"./$out" check "$@"
