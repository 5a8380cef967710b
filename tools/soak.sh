# soak.sh N FROM profiles...   uses a copy of the binaries
n=$1; f=$2; shift 2
d=$(mktemp -d /tmp/soakXXXX); cp /tmp/simout/vsim /tmp/simout/simchild $d/
for p in "$@"; do echo "== $p"; $d/vsim -bin $d/simchild -n $n -from $f -profile $p -show 6 2>&1 | grep -v "^map"; done
rm -r $d
