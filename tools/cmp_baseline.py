import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
p=set(o.get('passed',o.get('pass',[])) if isinstance(o,dict) else [])
miss=[t for t in b if t not in p]
print(len(b)-len(miss),'of',len(b),'stable pass', miss[:5])
