import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable'):
            if k in x: return set(x[k])
        return {k for k,v in x.items() if v in ('passed','pass',True)}
    return set(x)
B,O=passed(b),passed(o)
print(len(B),len(O),'missing',sorted(B-O)[:20])
sys.exit(1 if B-O else 0)
