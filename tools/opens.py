import json,collections,sys
c=collections.Counter(); ex={}
for l in open(sys.argv[1] if len(sys.argv)>1 else '/verif/build/out.jsonl'):
    d=json.loads(l)
    if d.get('v')=='open':
        k=(d['p'],d['job'].split()[0],d['kind'],d['func'] if d['p']=='C21' else d['text'][-60:]); c[k]+=1; ex.setdefault(k,d['job'])
for k,v in sorted(c.items()): print(v,*k,'   e.g.',ex[k])
