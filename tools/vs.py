import json,glob,re,collections,sys
f=sorted(glob.glob('/verif/work/replay/%s-*'%sys.argv[1]))[-1]
d=json.load(open(f))
c=collections.OrderedDict()
for x in d:
    k=re.sub(r'\d+','N',x['what'])[:int(sys.argv[2]) if len(sys.argv)>2 else 200]
    c.setdefault(k,[]).append(x)
for k,v in c.items(): print(len(v),k,'\n     e.g.',v[0]['what'][:120],'\n     ',json.dumps(v[0]['case'].get('case',v[0]['case']) if isinstance(v[0]['case'],dict) else v[0]['case'])[:120])
