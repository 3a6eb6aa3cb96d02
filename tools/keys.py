import json,sys,collections
d=json.load(open('/verif/replays/%s.json'%sys.argv[1]))
n=int(sys.argv[2]) if len(sys.argv)>2 else 30
seen=set()
for v in [d['first']]+d['others']:
    if v['key'] in seen: continue
    seen.add(v['key']); print(v['key'],'| exp',json.dumps(v['expected'])[:160],'| got',json.dumps(v['got'])[:160])
    n-=1
    if not n: break
