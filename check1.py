import sys, json, time, os
sys.path.insert(0,'/verif')
import contracts
from pyvc.contract import specs, pname
from check import scheduler
args=sys.argv[1:]; prop=args[0]; only=[a for a in args[1:] if '=' not in a and not a.startswith('-')]; flt=[a for a in args[1:] if '=' in a]
jobs=[]
for s in specs(prop):
    if only and s.name not in only: continue
    if s.mode=='bounded': continue
    for p in s.params:
        if flt and pname(p) not in flt: continue
        for c in s.cfg:
            jobs.append(("sym",((prop,s.name),p,c,float(os.environ.get('SEC','150')),1),1000))
for k,j,r in scheduler(jobs,8,100000):
    f=r.pop('failed')
    print(r['contract'],r['params'],r['cfg'],'paths',r['paths'],'obl',r['obligations'],'ok',r['discharged'],r['tactics'],r['wall'],'s')
    seen=set()
    for x in f:
        if x['label'] in seen: continue
        seen.add(x['label'])
        print('   FAIL',x['label'],x.get('why',''),'UNDEC' if x.get('undecided') else '',json.dumps(x.get('model')))
        if '-v' in args: print(json.dumps(x,indent=1)[:2500])
