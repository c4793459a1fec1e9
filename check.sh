#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds the verifier and decides the property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
lean=$(command -v lean || ls -d /app/lean4-*/build/release/stage1/bin/lean 2>/dev/null | head -1)
export VERIF_LEAN="$lean"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
[ -n "$2" ] && export VERIF_TIER="$2"
bin=$(mktemp -d /tmp/govc.XXXXXX) || exit 2
trap 'rm -rf -- "$bin"' EXIT
(cd govc && go build -o "$bin/govc" .) || exit 2
"$bin/govc" check -prop "$1" -repo /repo -verif "$PWD"
