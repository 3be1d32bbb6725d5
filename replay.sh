#!/bin/sh
# Replays a file written by a check: exit 1 and a VIOLATION line if it still fails.
f=$(realpath "$1") || exit 3
cd "$(dirname "$0")" || exit 3
PROP=$(grep -o '"property": *"C[0-9]*"' "$f" | head -1 | grep -o 'C[0-9]*')
. ./build.sh || exit 3
exec "$SIM" replay "$f"
