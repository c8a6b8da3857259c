# r.sh PROP [runs]
cd /tmp/work; export GOMAXPROCS=1 GORACE="exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
./harness.race -prop $1 -runs ${2:-2000} -secs 60 -replaydir /tmp/work/replay 2>/tmp/work/err.txt | python3 -c "
import json,sys
d=json.load(sys.stdin)
v=d['Violation']
print(d['Property'],'runs',d['Runs'],'nontriv',d['NonTrivial'],'wall %.1f'%d['WallS'],'steps/run',d['Steps']//max(1,d['Runs']),'faults',d['Faults'],'probes',d['Probes'])
if d['Harness']: print('HARNESS',d['Harness'])
if v: print('VIOLATION run',v['Run'],v['Class'],v['Message'][:1500],v['Replay'],v['MinimiseRuns'])
"
