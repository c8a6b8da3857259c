# allchk.sh REPO SECS [props...]
export VERIF_REPO=$1 VERIF_SECS=$2 VERIF_SEED=${VERIF_SEED:-1}; shift 2
cd /verif
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C22 C23 C24}; do
python3 check.py $p quick > /tmp/allchk.out 2>&1; rc=$?
echo "$p rc=$rc $(grep -E 'VIOLATION|Error|error|KNOWN' /tmp/allchk.out | head -3 | cut -c1-900)"
done
