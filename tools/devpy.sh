#!/bin/bash
# devpy.sh <harness> [tier] [extra args]: run a python harness in 8 parts (PYEXT: the built z5py)
h=$1; tier=${2:-quick}; shift 2
cd /verif
D=${PYEXT:-$(python3 -c "import sys; sys.path.insert(0,'/verif'); import check; print(check.build_py())")}
rm -f /tmp/$h.*.json
for i in 0 1 2 3 4 5 6 7; do rm -rf /dev/shm/z5v.$h.$i; mkdir -p /dev/shm/z5v.$h.$i; (PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$D timeout 1500 /opt/z5env/bin/python harness/$h.py --scratch /dev/shm/z5v.$h.$i --tier $tier --part $i/8 --out /tmp/$h.$i.json --progress /tmp/$h.$i.prog "$@" 2>/tmp/$h.$i.err || echo "part $i rc $? at $(tr -d '\0' < /tmp/$h.$i.prog | head -c 300)") & done; wait
python3 - $h <<'PY'
import json,sys,os
h=sys.argv[1]; cnt={}; vs=[]; sm=[]
for i in range(8):
    p='/tmp/%s.%d.json'%(h,i)
    if not os.path.exists(p) or not os.path.getsize(p): print('missing',i, open('/tmp/%s.%d.err'%(h,i)).read()[-1200:]); continue
    d=json.load(open(p)); sm+=d['samples']
    for k,v in d['count'].items(): cnt[k]=cnt.get(k,0)+v
    vs+=d['violations']
print(cnt); print(len(vs),'violations')
seen=set()
for v in sorted(vs,key=lambda v:v['sig']):
    k=v['sig']
    if k in seen: continue
    seen.add(k); print(v['sig'],'|',v['msg'][:300])
PY
rm -rf /dev/shm/z5v.$h.*
