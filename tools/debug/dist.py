import sys, collections
sys.path.insert(0,'/verif')
from sx import worker
from sx.api import JOBS
jid=sys.argv[1]
st=worker.load()
jobs={j.id:j for js in JOBS.values() for j in js}
class R:
    def run(self,*a): return {'status':'x','events':[]}
r=worker.Runner(jobs[jid],'quick',1,float(sys.argv[2]),st,R())
cnt=collections.Counter(); tags=collections.Counter()
def fin():
    for n,k,d in r.ctx.inputs:
        if k=='const': cnt[n,d[0]]+=1
    for e in r.ex.trace: tags[e.tag if not isinstance(e.tag,tuple) else e.tag[0]]+=1
r.finished=fin
r.run()
for k,v in sorted(cnt.items(), key=str): print(k,v)
print(tags.most_common(40))
