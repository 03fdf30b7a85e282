#!/bin/bash
# developer helper: one.sh <contract file> <entry> [vpexec args] — compile and run a single entry in /tmp/w
set -e
mkdir -p /tmp/w; cd /tmp/w
F=$1; N=$2; shift 2
R=${VP_REPO:-/repo}/runtime/src
export R
python3 - "$F" "$N" <<'P'
import os,sys
sys.argv=['x','P01']+sys.argv[1:]
sys.path.insert(0,'/verif/vp')
import run
F,N=sys.argv[2:4]
c=run.Check.__new__(run.Check)
c.work='/tmp/w/'+N; os.makedirs(c.work,exist_ok=True)
c.entries=[dict(file=F,name=N,defs=os.environ.get('DEFS','').split())]
c.notes=[]
run.ensure_engine()
c.compile()
for v in c.contracts.values(): os.rename(v,'/tmp/w/%s.bc'%N)
P
time timeout ${T:-40} /verif/build/vpexec $N.bc vpc_$N $N.json --time=${T:-40} "$@" > $N.log 2>&1 || tail -5 $N.log
python3 - $N <<'P'
import json,sys
d=json.load(open('/tmp/w/%s.json'%sys.argv[1]))
obs=d['obligations']
print('paths',d['paths'],'obl',len(obs),'failed',sum(1 for o in obs if o['failed']),'unknown',sum(1 for o in obs if o['unknown'] and not o['failed']),'incomplete',d['incomplete'],'covers',d['covers'])
print('solver',d['solver'])
print('trusted',d['trusted'],'replaced',d['replaced'],'bounds',d['bounds'])
for o in obs:
    if o['failed'] or o['unknown']: print('  ',o['id'],o['failed'],o['unknown'])
for f in d['failures'][:8]:
    print('FAIL',f['ob'],f['detail'],f['model_ok']); print('   ',f['stack']); print('   ',[(n[0],n[3]) for n in f['nondet']],[(b['name'],b['size']) for b in f['buffers']])
P
