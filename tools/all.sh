cd /verif
for p in ${@:-$(python3 -c "
import sys; sys.path.insert(0,'engine'); import spec; print(' '.join(spec.PROPS))")}; do s=$(date +%s.%N); timeout 900 python3 check.py $p >/tmp/chk.$p 2>&1; rc=$?; tail -1 /tmp/chk.$p | cut -c1-200; echo "$p rc=$rc $(echo "$(date +%s.%N)-$s"|bc)"; done
