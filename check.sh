#!/bin/bash
# check.sh ID: decides one property on /repo's current working tree. VERIF_TIER=thorough goes deeper.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off
export SYMGO_VERIF="$PWD"
if [ ! -x bin/symgo ] || [ -n "$(find engine -maxdepth 1 -newer bin/symgo -name '*.go' -print -quit)" ]; then
	bash setup.sh >&2 || exit 2
fi
exec bin/symgo check "$@"
