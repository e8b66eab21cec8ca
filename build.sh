#!/bin/bash
# Builds the engine into bin/ (an up to date binary is left alone by go build).
root="$(cd "$(dirname "$0")" && pwd)"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$root/bin"
cd "$root/engine" && go build -o "$root/bin/engine" . >&2
