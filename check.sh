#!/bin/bash
# check.sh <property> [tier]: decides one property on /repo's current source.
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
[ -x bin/checker ] || ./setup.sh || exit 2
VERIF_DIR="$PWD" exec bin/checker -prop "$1" -tier "${2:-quick}"
