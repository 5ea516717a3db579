import sys, collections, traceback
sys.path.insert(0,'/verif')
from sx import worker, core
from sx.api import JOBS
st=worker.load()
jobs={j.id:j for js in JOBS.values() for j in js}
class R:
    def run(self,*a): return {'status':'x','events':[]}
r=worker.Runner(jobs[sys.argv[1]],'quick',1,float(sys.argv[2]),st,R())
cnt=collections.Counter(); ex={}
ob=core.Explorer.branch
def br(self,c):
    if not self.replaying:
        n=len(self.trace)
        v=ob(self,c)
        if len(self.trace)>n and self.trace[-1].todo if hasattr(core.Entry,'todo') else len(self.trace)>n:
            s=traceback.extract_stack()
            k=' < '.join('%s:%d %s'%(f.filename.split('/')[-1],f.lineno,f.name) for f in reversed(s[-14:-1]))
            cnt[k]+=1
        return v
    return ob(self,c)
core.Explorer.branch=br
r.finished=lambda:None
r.run()
for k,v in cnt.most_common(int(sys.argv[3]) if len(sys.argv)>3 else 8): print(v,k,'\n')
