#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p .bin .work evidence
(cd engine && go build -o ../.bin/gosym .) || exit 3
exec ./.bin/gosym check "$1" "${2:-$VERIF_TIER}"
