import sys, traceback, json
sys.path.insert(0,'/verif')
from sx import worker
from sx.api import JOBS
from sx.ctx import Concretiser
st=worker.load()
jobs={j.id:j for js in JOBS.values() for j in js}
class R:
    def run(self,*a): return {'status':'x','events':[]}
r=worker.Runner(jobs[sys.argv[1]],'quick',1,60,st,R())
r.finished=lambda:None
n=[0]
def viol(label, model, detail=None):
    n[0]+=1
    c=Concretiser(r.ctx, model).case()
    print(label, {k:v for k,v in c['inputs'].items() if not k.startswith('m.')}, r.ctx.events)
    if n[0]>2: raise SystemExit
r.ex.on_violation=viol
r.run()
