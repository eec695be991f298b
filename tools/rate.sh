#!/bin/bash
# rate.sh BUG PROP RUNS: how many of RUNS normal runs of PROP report the planted bug (experiments only)
set -u
tmp=$(mktemp -d /tmp/rate-XXXX)
git -C /repo archive HEAD | tar x -C $tmp
[ "$1" != none ] && (cd $tmp && git init -q && git apply /verif/seeded/$1/patch.diff)
d=$tmp/.b
source <(sed -n '/^export HOME/,/^export GOCACHE/p;/^build()/,/^}/p' /verif/run.sh)
V=/verif REPO=$tmp
build $d ${RACE:-0} || exit 2
N=$3; K=8; P=$((N/K))
base=0; bin=$d/simcheck; [ "${RACE:-0}" = 1 ] && { bin=$d/simcheck-race; base=2199023255552; }
for i in $(seq 0 $((K-1))); do
 GOMAXPROCS=1 VERIF_COUNT=1 $bin worker -prop $2 -seed ${SEED:-1} -from $((base+i*P)) -to $((base+(i+1)*P)) 2>/dev/null | grep '^=' | cut -c2- > $tmp/o$i &
done; wait
python3 - $tmp $1 $2 <<'P'
import sys,json,glob
n=0;c={};w=0
for f in glob.glob(sys.argv[1]+'/o*'):
    t=open(f).read()
    if not t: print('crashed',f); continue
    d=json.loads(t); n+=d['Runs']; w+=d['WallNs']
    for k,v in d['Count'].items():
        if k.startswith('viol:') or k=='preemption': c[k]=c.get(k,0)+v
v=sum(x for k,x in c.items() if k.startswith('viol:'))
print(sys.argv[2],sys.argv[3],'runs',n,'hits',v,'cpu %.1fs'%(w/1e9),{k:x for k,x in sorted(c.items(),key=lambda t:-t[1])[:6]})
P
rm -rf $tmp
