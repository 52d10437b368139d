#!/bin/bash
# check.sh ID: decide one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 1
. ./env.sh
export OCV_VERIF="$PWD"
[ -x bin/ocv ] || bash setup.sh >&2 || { echo "VIOLATION property=$1 replay=setup"; exit 1; }
exec ./bin/ocv check "$@"
