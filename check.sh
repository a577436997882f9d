#!/bin/bash
# check.sh ID quick|thorough: decides one property of /repo's current tree
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
if [ ! -x bin/gosym ] || [ -n "$(find gosym -newer bin/gosym \( -name '*.go' -o -name go.mod \) -not -path '*/vendor/*' -print -quit)" ]; then
  bash ./setup.sh || { echo "cannot build the engine"; exit 2; }
fi
unset GOFLAGS
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
exec ./bin/gosym check "$1" "$tier"
