#!/bin/sh
# setup.sh: builds the driver and fills the Go build cache.
cd "$(dirname "$0")" || exit 2
. ./env.sh || exit 2
"$VRUN" warm
