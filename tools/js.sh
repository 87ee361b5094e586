cd /verif; for p in "$@"; do s=$(date +%s.%N); node --expose-gc js/main.mjs $p --tier ${TIER:-quick} --out /tmp/js-$p.json --limit ${LIMIT:-240} > /tmp/js-$p.log 2>&1; rc=$?; e=$(date +%s.%N); echo "$p rc=$rc $(echo "$e-$s"|bc) $(head -c 600 /tmp/js-$p.log | head -1)"; python3 -c "
import json;d=json.load(open('/tmp/js-$p.json'));print('   capped',d['capped'],d['sig_counts'])"; done
