#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/vt ] || [ -n "$(find engine -name '*.go' -newer bin/vt -print -quit)" ]; then
  (cd engine && env -u GOFLAGS -u GOWORK GOWORK=off go build -o ../bin/vt .) || exit 2
fi
exec bin/vt -verif "$PWD" -tier "${2:-${VERIF_TIER:-quick}}" check "$1"
