source /opt/vp/env.sh; cd /verif/sim; gofmt -l lab cmd; go vet ./lab ./cmd/vsim && go build -o /tmp/simout/vsim ./cmd/vsim && /tmp/simout/vsim "$@"
