#!/bin/sh
# Builds the engine (offline) into bin/. Used by setup_cmd and, if bin/eng is missing, by check.sh.
set -e
d=$(cd "$(dirname "$0")" && pwd)
cd "$d/engine"
mkdir -p "$d/bin"
unset GOROOT GOTOOLCHAIN
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o "$d/bin/eng.$$" .
mv "$d/bin/eng.$$" "$d/bin/eng"
