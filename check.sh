#!/bin/sh
# check.sh PROPERTY: builds the engine when needed and decides one property.
cd "$(dirname "$0")" || exit 2
[ -n "$HOME" ] || export HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
if [ ! -x bin/gosym ] || [ -n "$(find engine -name '*.go' -newer bin/gosym -not -path '*/vendor/*' | head -1)" ]; then
	sh setup.sh || exit 2
fi
exec bin/gosym check -root "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
