#!/bin/bash
# check.sh <property> [quick|thorough]: verify the contracts of one property on /repo's current source
cd "$(dirname "$0")"
. ./env.sh
tier=${2:-${VERIF_TIER:-quick}}
[ -x bin/gocv ] || bash setup.sh >/dev/null || exit 2
exec ./bin/gocv -prop "$1" -tier "$tier"
