#!/bin/bash
# replay.sh FILE [-v]: run a recorded violation again against /repo's current working tree.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1"); shift
work=$(mktemp -d /tmp/ginkgosim.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$here/sim" || exit 2
go build -o "$work/simbuild" ./cmd/simbuild && go build -o "$work/vsim" ./cmd/vsim || exit 2
"$work/simbuild" -out "$work" -repo "${REPO:-/repo}" -sim "$here/sim" -goroot /opt/veriftools/go1.24.13 || exit 2
"$work/vsim" replay -bin "$work/simchild" "$@" "$f"
