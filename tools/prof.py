import sys,os
sys.path[:0]=['/verif','/repo']; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('VERIF_REPO','/repo')
import importlib,cProfile,pstats,time,ast
prop,h,cfg=sys.argv[1],sys.argv[2],ast.literal_eval(sys.argv[3])
from symx import runner
H=runner._setup(prop)
hh={x.name:x for x in H.HARNESSES[prop]}[h]
job=H.Job(hh,cfg,time.time()+60)
pr=cProfile.Profile(); pr.enable(); job.run(); pr.disable()
pstats.Stats(pr).sort_stats('tottime').print_stats(22)
print(job.summary()['stats'], job.violations[:1], job.incon)
