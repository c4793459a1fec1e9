#!/bin/bash
# builds the verifier and the replay program once, which fills the build cache
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
(cd govc && go build -o /dev/null .) && (cd battery && go build -o /dev/null .)
