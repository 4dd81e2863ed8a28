#!/bin/bash
# build and run one explorer in both builds: try.sh c04 [tier]
cd /verif/mc; export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${T:-/verif/mc/target}
cargo build -q --offline --bin $1 >/tmp/b-$1.txt 2>&1 || { grep -E -A12 '^error' /tmp/b-$1.txt | head -${L:-60}; exit 1; }
cargo build -q --release --offline --bin $1 2>&1 | grep -E '^error' | head
for p in debug release; do
 for s in 0 1 2 3 4 5 6 7; do ( $CARGO_TARGET_DIR/$p/$1 --tier ${2:-quick} --shard $s/8 --out /tmp/o-$1-$s.json 2>/tmp/e-$1-$s.txt || { echo "$p shard $s rc=$?"; } ) & done
 /usr/bin/time -f "%es" bash -c true; S=$(date +%s.%N); wait; E=$(date +%s.%N); echo "$p: $(echo "$E - $S" | bc)s"
 python3 - $1 <<'P'
import json,sys,collections
t=collections.defaultdict(lambda:[0]*5); v=[]; f=[]
for s in range(8):
    try: d=json.load(open('/tmp/o-%s-%d.json'%(sys.argv[1],s)))
    except Exception as e: print(e); continue
    for k,x in d['spaces'].items():
        for i,n in enumerate(['cases','evaluations','states','transitions','traces']): t[k][i]+=x[n]
    v+=d['violations']; f+=d['findings']
for k,x in t.items(): print('  ',k,x)
for x in sorted(v,key=lambda x:x['ord'])[:6]: print('  VIOL',x['ord'],x['space'],x['case'],x['message'])
print('  total viol',len(v)); 
for x in f[:5]: print('  FIND',x)
P
done
rm -f /tmp/o-$1-*.json /tmp/e-$1-*.txt
