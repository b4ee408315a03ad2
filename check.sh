#!/bin/bash
# check.sh <property>: builds the checker and decides the property for /repo.
cd "$(dirname "$0")" || exit 3
here=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
bin=$(mktemp -d /tmp/gocvbin.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
(cd tool && go build -o "$bin/gocv" .) || exit 3
"$bin/gocv" check "$1" -verif "$here" -repo "${REPO:-/repo}" "${@:2}"
