. /verif/tools/env.sh
for c in "$@"; do timeout 400 $CARGO_TARGET_DIR/debug/${BIN:-h-full} $c --tier ${TIER:-quick} --out /tmp/$c.json > /tmp/$c.log 2>&1; echo "rc $?"; head -1 /tmp/$c.log | cut -c1-400; python3 -c "
import json;d=json.load(open('/tmp/$c.json'));print(d['wall_s'],d['capped'],d['sig_counts'])
seen=set()
for v in d['violations']:
    if v['sig'] not in seen: seen.add(v['sig']); print('   ',v['sig'],'|',v['exploration'],'|',v['msg'][:300])"; done
