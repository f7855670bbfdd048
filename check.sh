#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property for /repo's working tree.
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/govc ] || [ -n "$(find govc -name '*.go' -newer bin/govc | head -1)" ]; then
	./build.sh || exit 2
fi
exec bin/govc check "$1" "${2:-${VERIF_TIER:-quick}}"
