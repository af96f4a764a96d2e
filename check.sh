#!/bin/bash
# check.sh <property id> : rebuild the binaries from /repo's working tree, then run that property's check.
cd "$(dirname "$0")" || exit 2
bash ./build.sh || { echo "build of /repo failed" >&2; exit 2; }
. ./env.sh
exec python3 -m mc.main "$1"
