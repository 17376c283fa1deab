#!/bin/bash
# seed.sh ID PROPERTY "needs" "what it breaks": keeps the uncommitted change of
# /tmp/wt as seeded/ID after checking it; the scenario is /tmp/main.rs.
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/wt diff -- programs merkle-tree > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
cp /verif/tools/demo/{svm.rs,disc.rs,state.rs,Cargo.lock,demo.sh} $d/
cp ${MAIN:-/tmp/main.rs} $d/main.rs
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P
( cd /repo && bash $d/demo.sh ) && echo "clean: ok" || { echo "clean tree: demo FAILS"; exit 1; }
if ( cd /tmp/wt && bash $d/demo.sh ); then echo "patched: demo PASSES (bad)"; exit 1; else echo "patched: fails as it should"; fi
