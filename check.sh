#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the checker (engine/) and decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. tools/env.sh
out="$(mktemp -d /tmp/gosym-bin.XXXXXX)"
trap 'rm -rf "$out"' EXIT
if ! (cd engine && go build -o "$out/gosym" .); then
  echo "INCONCLUSIVE: the checker does not build"
  exit 2
fi
"$out/gosym" check "$@"
