#!/bin/bash
# Builds the checker once to show that it builds; every check builds its own copy.
cd "$(dirname "$0")" || exit 1
. tools/env.sh
out="$(mktemp -d /tmp/gosym-bin.XXXXXX)"
trap 'rm -rf "$out"' EXIT
cd engine && go build -o "$out/gosym" .
