#!/bin/bash
# Builds the checker once (and warms the compiler cache); every check builds it again from /repo's tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p "$here/bin" "$here/evidence"
cd "$here/mc" && go vet . && go build -o "$here/bin/mc" .
