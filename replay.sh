#!/bin/sh
# replay.sh FILE: executes the run recorded in a replay file again.
cd "$(dirname "$0")" || exit 2
. ./env.sh || exit 2
exec "$VRUN" replay "$@"
