#!/bin/sh
# Builds the simulator against /repo's working tree and runs the check of one property.
cd "$(dirname "$0")" || exit 3
PROP=$1
. ./build.sh || exit 3
exec "$SIM" check "$1"
