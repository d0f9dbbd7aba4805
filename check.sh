#!/bin/sh
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh || exit 2
exec "$VRUN" check "$@"
