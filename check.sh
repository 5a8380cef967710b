#!/bin/bash
# check.sh PROPERTY [extra vsim check flags]: decide one property for /repo's current working tree.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
work=$(mktemp -d /tmp/ginkgosim.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
t0=$(date +%s)
cd "$here/sim" || exit 2
go build -o "$work/simbuild" ./cmd/simbuild && go build -o "$work/vsim" ./cmd/vsim || { echo "machinery: harness does not build"; exit 2; }
"$work/simbuild" -out "$work" -repo "${REPO:-/repo}" -sim "$here/sim" -goroot /opt/veriftools/go1.24.13 || { echo "machinery: the simulation does not build"; exit 2; }
t1=$(date +%s)
cd "$here"
"$work/vsim" check -bin "$work/simchild" -prop "$prop" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$prop.json" -replays "$here/replays" -known "$here/known-findings.txt" -builds $((t1-t0)) "$@"
