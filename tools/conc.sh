#!/bin/bash
# concrete leg of a contract file, condensed: tools/conc.sh contracts/CXX.ts SECONDS [SEED]
O=/tmp/bnd.$$.cjs
node /verif/runtime/bundle.mjs $1 $O && NODE_PATH=/repo/node_modules node $O "{\"seconds\":${2:-5},\"seed\":${3:-1}}" | python3 -c "
import sys, json
for l in sys.stdin:
    try: j = json.loads(l)
    except Exception: print(l[:300].rstrip()); continue
    if 'fail' in j: print(json.dumps(j)[:1500])
    elif 'done' in j:
        zero=[k for k,v in j['covers'].items() if not v]
        print('%-60s runs %d skips %d distinct %d labels %d %s' % (j['done'][:60], j['runs'], j['skips'], j['distinct'], len(j['labels']), ('uncovered '+str(zero)) if zero else ''))
"
rm -f $O
