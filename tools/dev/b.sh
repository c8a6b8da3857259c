set -e
. /opt/vp/env.sh
W=/tmp/work; mkdir -p $W
[ -x $W/instr ] && [ $W/instr -nt /verif/sim/instr/main.go ] || (cd /verif/sim/instr && go build -o $W/instr .)
sed 's/^go 1\..*/go 1.21/' /repo/go.mod > $W/go.mod; cp /repo/go.sum $W/go.sum
cd /repo
$W/instr -repo /repo -modfile $W/go.mod -out $W -simrt /verif/sim/simrt -harness /verif/sim/harness
go build -modfile=$W/go.mod -overlay=$W/overlay.json -o $W/harness ./zzverif/harness &
go build -race -modfile=$W/go.mod -overlay=$W/overlay.json -o $W/harness.race ./zzverif/harness &
wait %1; wait %2
