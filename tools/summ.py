import json,sys,collections
f=sys.argv[1]; v=collections.OrderedDict(); op=collections.Counter(); ab=[]; tot=collections.defaultdict(lambda:[0,0]); slow=[]
for l in open(f):
    try: d=json.loads(l)
    except Exception: print("BAD",l[:200]); continue
    if d.get("error"): print("ERROR",d)
    elif d.get("done"):
        if d["abort"]: ab.append((d["job"],d["abort"]))
        for p,(a,b) in d.get("sum",{}).items(): tot[p][0]+=a; tot[p][1]+=b
        if d.get("imprecise"): op["imprecise states"]+=d["imprecise"]
    elif d["v"]=="violated": v.setdefault((d["p"],d["kind"],d["func"],d["loc"]),[]).append(d)
    else: op[(d["p"],d["kind"],d["func"],d["loc"])]+=1
for k,ds in v.items(): print("VIOL",*k,len(ds),"|",ds[0]["job"],"|",ds[0]["text"][:200],"|",ds[0]["w"][:200])
if len(sys.argv)>2:
    for k,n in sorted(op.items(),key=str): print("open",k,n)
for a in ab: print("ABORT",a)
for p in sorted(tot): print(p,tot[p])
