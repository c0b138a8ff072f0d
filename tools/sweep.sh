#!/bin/bash
# sweep.sh SCEN FROM BUDGET [PROP] [TIER]: exploratory run on 8 cores; prints distinct violation classes
S=$1; F=$2; B=$3; P=${4:-}; T=${5:-quick}; d=$(mktemp -d)
for i in 0 1 2 3 4 5 6 7; do ${SIM:-/verif/build/sim} run $S --seeds $((F+i)):$((F+400000)) --stride 8 --tier $T --stats $d/$i.json --budget $B --stop-after 1000000 --cpu $i ${P:+--prop $P} $LOGARG >/dev/null 2>$d/$i.err & done; wait
python3 - $d <<'PY'
import json,sys,glob,re,collections
runs=0;c=collections.Counter();v={};n=collections.Counter();inc=0
for f in glob.glob(sys.argv[1]+"/*.json"):
    try: d=json.load(open(f),strict=False)
    except Exception as e: print("bad",f,e); continue
    runs+=d['runs']; inc+=d.get('inconclusive',0)
    if d.get('error'): print("ERROR",d['error'])
    for k,x in d['counters'].items(): c[k]+=x
    for x in d.get('violations',[]):
        k=x['prop']+" "+re.sub(r"[0-9a-f]{8,}|\d+","#",x['msg'])[:150]; n[k]+=1
        v.setdefault(k,x)
print("runs",runs,"inconclusive",inc)
print({k:v for k,v in sorted(c.items()) if not k.startswith(('mutant','status'))})
for k,x in n.most_common(30): print(x,"x seed",v[k]['seed'],v[k]['prop'],v[k]['msg'][:260])
PY
rm -rf $d
