import sys,collections,traceback
sys.path.insert(0,'/verif'); sys.path.insert(0,__import__('os').environ.get('VERIF_REPO','/repo'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import time,ast,logging; logging.disable(50)
from symx import harness as H, core, runner
prop,name,cfg=sys.argv[1],sys.argv[2],eval(sys.argv[3])
runner.load_checks(prop)
h=[x for x in H.HARNESSES[prop] if x.name==name][0]
C=collections.Counter()
orig=core.SBool.__bool__
def b(self):
    if self.known() is None if hasattr(self,'known') else True:
        st=traceback.extract_stack()[:-1]
        st=[f for f in st if '/repo/' in f.filename or '/checks/' in f.filename or 'symnp' in f.filename]
        C[' < '.join('%s:%d'%(f.filename.split('/')[-1],f.lineno) for f in st[::-1][:4])]+=1
    return orig(self)
core.SBool.__bool__=b
j=H.Job(h,cfg,time.time()+10); j.run()
for k,v in C.most_common(15): print(v,k)
print(j.eng.stats, j.incon)
