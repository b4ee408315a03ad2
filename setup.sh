#!/bin/bash
# Builds the checker once, so that the Go build cache is warm and errors show.
cd "$(dirname "$0")" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
d=$(mktemp -d /tmp/gocvsetup.XXXXXX) || exit 3
(cd tool && go vet . && go build -o "$d/gocv" .)
rc=$?
rm -rf "$d"
exit $rc
