#!/bin/bash
# run.sh <property> <quick|thorough>: builds the checker against /repo's working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local MC_ROOT="$here"
export VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p "$here/bin" "$here/evidence"
bin="$here/bin/mc.$$"
trap 'rm -f "$bin"' EXIT
if ! (cd "$here/mc" && go build -o "$bin" .) ; then
  echo "run.sh: the checker does not build against /repo" >&2
  exit 2
fi
"$bin" run "$1" "$2"
