#!/bin/bash
# setup.sh: build the simulator once, to fail early and to warm Go's build cache.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/ginkgosim.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$here/sim" && go build -o "$work/simbuild" ./cmd/simbuild && go build -o "$work/vsim" ./cmd/vsim && "$work/simbuild" -out "$work" -repo /repo -sim "$here/sim" -goroot /opt/veriftools/go1.24.13
