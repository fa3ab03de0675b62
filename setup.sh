#!/bin/bash
# Checks build what they need themselves; this only proves that the pieces are here.
set -eu
cd "$(dirname "$0")"
. /opt/vp/env.sh
scr=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$scr"' EXIT
(cd instr && GOFLAGS=-mod=mod go build -trimpath -o "$scr/instr" .)
