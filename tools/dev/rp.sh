cd /tmp/work; export GOMAXPROCS=1 GORACE="exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
./harness.race -replay $1 -trace 2>&1 | grep -v "^ *\(run\|switch\)" | grep -i "op \|REPLAY\|fail\|race" | tail -${2:-40}
