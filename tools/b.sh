source /opt/vp/env.sh
cd /verif/sim && cat > go.mod <<M
module sim
go 1.24
M
mkdir -p /tmp/simout && go build -o /tmp/simout/simbuild ./cmd/simbuild && time /tmp/simout/simbuild -out /tmp/simout -goroot /opt/veriftools/go1.24.13
