#!/bin/bash
# Runs the defect demonstrations against $1 (default /repo). Not a check.
repo=${1:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
f=$(mktemp); trap 'rm -f "$f"' EXIT
echo "{\"Replace\":{\"$repo/internal/relation_graph/zz_defects_test.go\":\"$here/defects_test.go\"}}" > "$f"
cd "$repo" && go test -vet=off -count=1 -timeout 60s -overlay "$f" ./internal/relation_graph "${@:2}"
