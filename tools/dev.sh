#!/bin/bash
# Development: dev.sh ID [KEY] [seconds]: encodes the harnesses of a check and
# runs the executor on each, without replay.
cd "$(dirname "$0")/.."
rm -f /tmp/dev/*.bc
VERIF_STOP_AFTER_IR=/tmp/dev python3 tools/check.py $1 --repo=${REPO:-/repo} ${TIER:-quick} ${2:+--only=$2}
shopt -s nullglob; for f in /tmp/dev/*.bc; do
  k=$(basename $f .bc)
  build/symex $f -o /tmp/dev/$k.jsonl -j ${J:-8} -t ${3:-60} -m 3 2>/tmp/dev/$k.err
  python3 - $k <<'P'
import json,sys
k=sys.argv[1]
for l in open('/tmp/dev/%s.jsonl'%k,errors='replace'):
    try: x=json.loads(l)
    except ValueError: continue
    if x['t'] in('violation','unsupported','known'):
        print('  ',x['t'],x.get('msg'),x.get('where','')[:600],' '.join('%s=%s'%(i[3],i[2]) for i in x.get('inputs',[])[-60:]))
    if x['t']=='reach': R=globals().setdefault('R',set()); R.add(x['msg'])
    if x['t']=='summary': print(k,sorted(globals().get('R',[])),{a:x[a] for a in('complete','paths','queries','sat','unsat','unknown','solver_s','violations','unsupported','truncated','known','wall_s')})
P
done
