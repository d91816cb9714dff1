#!/bin/bash
# dev.sh <harness> [tier] [flags...]: build one harness and run it in 8 parts, print counts and violations
h=$1; tier=${2:-quick}; shift 2
cd /verif; mkdir -p .build/t
g++ -std=c++20 -w -DNDEBUG -I${INC:-/repo/include} -Ilib -DWITH_BLOSC -DWITH_ZLIB -DWITH_LIBDEFLATE -DWITH_BZIP2 -DWITH_XZ -DWITH_LZ4 -DWITH_ZSTD ${OPT:--O0} "$@" harness/$h.cpp -o .build/t/$h$SUF -lblosc -ldeflate -lbz2 -llzma -llz4 -lzstd -lz -lpthread -ldl || exit 1
rm -f /tmp/$h.*.json
for i in 0 1 2 3 4 5 6 7; do mkdir -p /dev/shm/z5v.$h.$i; (.build/t/$h$SUF --scratch /dev/shm/z5v.$h.$i --tier $tier --part $i/8 --out /tmp/$h.$i.json --progress /tmp/$h.$i.prog 2>/tmp/$h.$i.err || echo "part $i rc $? at $(tr -d '\0' < /tmp/$h.$i.prog | head -c 300)") & done; wait
python3 - $h <<'PY'
import json,sys,os
h=sys.argv[1]; cnt={}; vs=[]
for i in range(8):
    p='/tmp/%s.%d.json'%(h,i)
    if not os.path.exists(p): print('missing',i, open('/tmp/%s.%d.err'%(h,i)).read()[-800:]); continue
    d=json.load(open(p))
    for k,v in d['count'].items(): cnt[k]=cnt.get(k,0)+v
    vs+=d['violations']
print(cnt); print(len(vs),'violations')
seen=set()
for v in sorted(vs,key=lambda v:v['sig']):
    k=v['sig']
    if k in seen: continue
    seen.add(k); print(v['sig'],'|',v['msg'][:300])
PY
rm -rf /dev/shm/z5v.$h.*
