#!/bin/bash
. /verif/env.sh; python3 /verif/tools/gen_derive.py; cd /verif/dchk
cargo build --offline --message-format json 2>/tmp/gb.err | python3 -c "
import sys,json
n=0;seen={}
for l in sys.stdin:
    m=json.loads(l)
    if m.get('reason')!='compiler-message' or m['message']['level']!='error': continue
    r=m['message']; s=[x for x in r['spans'] if x['is_primary']]
    t=s[0]['text'][0]['text'][:260] if s and s[0]['text'] else ''
    k=r['message']
    seen.setdefault(k,[]).append(t); n+=1
for k,v in seen.items(): print(len(v),k); [print('     ',x) for x in sorted(set(v))[:4]]
print(n,'errors')"; tail -2 /tmp/gb.err
