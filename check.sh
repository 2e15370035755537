#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Decides one property from /repo's current source. Builds the analyser first (a no-op when it is up to date).
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/setup.sh" >/dev/null || { echo "the analyser does not build" >&2; exit 2; }
export GOMEMLIMIT=${GOMEMLIMIT:-12GiB}
exec "$here/bin/zcheck" -prop "$1" -root /repo -out "$here/evidence" -known "$here/KNOWN_FINDINGS.txt" -tier "${2:-quick}"
