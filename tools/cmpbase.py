import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def g(d,*ks):
    for k in ks:
        if k in d: return d[k]
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()},{k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()})
stable=set(g(b,'stable','passed','pass','tests'))
p=set(g(t,'passed','pass'))
print('lost:',sorted(stable-p))
