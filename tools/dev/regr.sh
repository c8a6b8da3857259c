# regr.sh SECS: every planted bug against its check and its demo
rm -rf /tmp/regr; mkdir /tmp/regr
for d in /verif/seeded/*; do
n=$(basename $d); p=${n%%-*}
git clone -q /repo /tmp/regr/$n || exit 1
cd /tmp/regr/$n; 
cp -r $d /tmp/regr/demo
ok=1; timeout 300 bash /tmp/regr/demo/demo.sh >/dev/null 2>&1; a=$?
git apply $d/patch.diff || echo "$n APPLY"
timeout 300 bash /tmp/regr/demo/demo.sh >/dev/null 2>&1; b=$?
rm -rf /tmp/regr/demo
cd /verif; t=$(date +%s)
VERIF_REPO=/tmp/regr/$n VERIF_SECS=$1 python3 check.py $p quick > /tmp/regr.one 2>&1; rc=$?
echo "$n demo $a $b check $rc $(($(date +%s)-t)) s $(grep -o 'VIOLATION.*' /tmp/regr.one | head -1|cut -c1-120)"
rm -rf /tmp/regr/$n
done
