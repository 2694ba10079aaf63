#!/bin/bash
# run.sh ENTRY [DEADLINE]: rebuild the harness and run one entry, replaying its first violations
cd "$(dirname "$0")/.."
./check.py --setup || exit 1
for e in ${1//,/ }; do
work/rt/release/rsym --ir work/harness.ll --entry $e --deadline ${2:-120} --workers 8 --keep-going --out /tmp/o.$e.json > /tmp/o.$e.txt 2>&1
python3 - $e <<'P'
import json,sys,subprocess
sys.path.insert(0,'/verif')
e=sys.argv[1]
r=json.load(open('/tmp/o.%s.json'%e))
print(e,{k:r.get(k) for k in ('status','paths','killed','wall_s','insts','forks','z3_queries','audited_queries','solver_us','reached','errors')})
seen={}
for v in r.get('violations',[]):
    m=v.get('message',v.get('msg',''))
    if seen.get(m,0)>=2: continue
    seen[m]=seen.get(m,0)+1
    L=[]
    for t in v['trace']:
        b=t['bytes']
        if not isinstance(b,str): b=''.join('%02x'%x for x in b)
        if t['choose']: L.append('C %s %d'%(t['name'],int(b[:2],16)))
        elif b: L.append('S %s %s'%(t['name'],b))
    p='/tmp/o.%s.%d.replay'%(e,sum(seen.values()))
    open(p,'w').write('\n'.join(L)+'\n')
    try:
        x=subprocess.run(['/verif/work/harness.bin',e,p],capture_output=True,text=True,errors='replace',timeout=60)
        rc=x.returncode; t=(x.stdout+x.stderr)[-1500:]
    except subprocess.TimeoutExpired: rc,t='timeout',''
    print('VIOL',m,'native',rc,p); print('   ',' | '.join(L)[:600]); print('   ',t.strip()[:1500])
P
done
