#!/bin/bash
# devrt.sh <harness> [tier] [extra args]: build one harness on the controlled scheduler, run in 8 parts
h=$1; tier=${2:-quick}; shift 2
cd /verif; mkdir -p .build/t
[ .build/t/mcrt.o -nt lib/mcrt.cpp ] || g++ -std=c++20 -O2 -g -fno-builtin -fno-threadsafe-statics -fno-tree-loop-distribute-patterns -w -Ilib -c lib/mcrt.cpp -o .build/t/mcrt.o || exit 1
g++ -std=c++20 -w -DNDEBUG -I${INC:-/repo/include} -Ilib -DWITH_BLOSC -DWITH_ZLIB -DWITH_LIBDEFLATE -DWITH_BZIP2 -DWITH_XZ -DWITH_LZ4 -DWITH_ZSTD -O1 -g1 -fsanitize=thread $CF -c harness/$h.cpp -o .build/t/$h.o || exit 1
g++ -rdynamic -Wl,--no-as-needed .build/t/$h.o .build/t/mcrt.o -o .build/t/$h -lblosc -ldeflate -lbz2 -llzma -llz4 -lzstd -lz -lpthread -ldl || exit 1
[ -n "$NORUN" ] && exit
rm -f /tmp/$h.*.json
for i in 0 1 2 3 4 5 6 7; do mkdir -p /dev/shm/z5v.$h.$i; (timeout 1500 .build/t/$h --scratch /dev/shm/z5v.$h.$i --tier $tier --part $i/8 --out /tmp/$h.$i.json --progress /tmp/$h.$i.prog "$@" 2>/tmp/$h.$i.err || echo "part $i rc $? at $(tr -d '\0' < /tmp/$h.$i.prog | head -c 300)") & done; wait
python3 - $h <<'PY'
import json,sys,os
h=sys.argv[1]; cnt={}; vs=[]; sm=[]
for i in range(8):
    p='/tmp/%s.%d.json'%(h,i)
    if not os.path.exists(p): print('missing',i, open('/tmp/%s.%d.err'%(h,i)).read()[-800:]); continue
    d=json.load(open(p)); sm+=d['samples']
    for k,v in d['count'].items(): cnt[k]=cnt.get(k,0)+v
    vs+=d['violations']
print(cnt); print(len(vs),'violations')
seen=set()
for v in sorted(vs,key=lambda v:v['sig']):
    k=v['sig']
    if k in seen: continue
    seen.add(k); print(v['sig'],'|',v['msg'][:700])
open('/tmp/%s.samples'%h,'w').write('\n'.join(sm))
PY
rm -rf /dev/shm/z5v.$h.*
