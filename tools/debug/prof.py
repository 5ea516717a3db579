import sys, cProfile, pstats
sys.path.insert(0,'/verif')
from sx import worker
from sx.api import JOBS
jid=sys.argv[1]
st=worker.load()
jobs={j.id:j for js in JOBS.values() for j in js}
class R:
    def run(self,*a): return {'status':'x','events':[]}
r=worker.Runner(jobs[jid],'quick',1,float(sys.argv[2]),st,R())
r.finished=lambda:None
p=cProfile.Profile()
p.enable(); r.run(); p.disable()
print(r.ex.stats.__dict__)
pstats.Stats(p).sort_stats('cumtime').print_stats(90)
