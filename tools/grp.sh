#!/bin/bash
# grp.sh BIN CASES : group violations printed by harness
timeout 600 /verif/target/debug/$1 run $2 2>/dev/null > /tmp/w/grp.out
python3 - <<'P'
import json,re,collections
c=collections.OrderedDict()
for l in open('/tmp/w/grp.out'):
    try: d=json.loads(l)
    except Exception: 
        print(l[:200]); continue
    w=d.get('violation') or d.get('what')
    if w is None: print(l[:200]); continue
    k=re.sub(r'\d+','N',re.sub(r'0x[0-9a-f]+','X',w))[:110]
    c.setdefault(k,[]).append((w,d))
for k,v in c.items(): print(len(v),k,'\n      ',v[0][0][:160].replace('\n',' '))
P
