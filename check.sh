#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree and decides property ID.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build trouble, time limit)
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$V"
exe=$("$V/build.sh") || exit 2
exec "$exe" check "$1" "${2:-quick}"
