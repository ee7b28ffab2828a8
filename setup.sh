#!/bin/bash
# Builds the engine offline and warms the build cache.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p .bin .work evidence
(cd engine && go build -o ../.bin/gosym .)
(cd /repo && go build ./... >/dev/null 2>&1 || true)
