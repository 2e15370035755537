#!/bin/bash
# Builds the analyser from the committed, vendored sources.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin" "$here/evidence"
cd "$here/tool" && GOFLAGS=-mod=vendor exec go build -o "$here/bin/zcheck" .
