#!/bin/bash
# run.sh PROPERTY: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 3
. ./env.sh
if [ ! -x bin/noisecheck ] || [ -n "$(find checker -name '*.go' -newer bin/noisecheck 2>/dev/null | head -1)" ]; then
  ./setup.sh || exit 3
fi
exec bin/noisecheck -repo /repo -verif "$PWD" "$@"
