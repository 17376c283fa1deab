#!/bin/bash
# developer helper: run.sh HARNESS [engine args]; summary
h=$1; shift
/verif/engine/target/release/engine /verif/target/ir/debug/deps/harness-*.ll $h --param nreg=1 --time 240 "$@" --out /tmp/run.$$.json >/tmp/run.$$.log 2>&1
python3 - /tmp/run.$$.json "$h $*" <<'P'
import json,sys
try: d=json.load(open(sys.argv[1]))
except Exception as e: print(sys.argv[2],"NO OUTPUT",open(sys.argv[1].replace('.json','.log')).read()[-500:]); sys.exit()
print(f"== {sys.argv[2]}: paths {d['paths']} wall {d['wall_s']} queries {d['queries']} unk {d['unknown']} asserts {len(d['asserts'])} dec {d['deciders']}")
for c in d['covers']: print("   cover",c['label'],c['hits'])
for a in d['asserts']:
    if a['undecided']: print("   UNDECIDED",a)
seen=set()
for v in d['violations']:
    if v['msg'] in seen: continue
    seen.add(v['msg']); print("   VIOL",v['msg'],v.get('how'),str(v['model'])[:900])
for e in d['errors']: print("   ERR",e[:600])
P
rm -f /tmp/run.$$.*
