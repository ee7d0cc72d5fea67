# usage: sweep.sh seeds checks...
cd /verif
for seed in $1; do for c in ${2//,/ }; do
 out=$(VERIF_SEED=$seed timeout 900 /opt/venv/bin/python -m vlib.run $c ${3:-quick} 2>&1); rc=$?
 echo "$seed $c rc=$rc $(echo "$out" | grep -v DLASCL | tail -1 | cut -c1-160)"; [ $rc -ne 0 ] && echo "$out" | tail -8
done; done
