"""Print obligations of a unit as they are discharged, with a short budget: tools/live.py C04 sparse [ms]"""
import sys, os, importlib, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import checks
from pyvc import vc as V
mod = importlib.import_module('checks.' + sys.argv[1].lower())
u=[u for u in mod.UNITS if sys.argv[2] in u.name][0]
orig=V.VC._discharge
def d(self,c,full):
    orig(self,c,full); o=self.report.obligations[-1]
    if o.seconds>0.5 or o.status!='discharged': print(round(o.seconds,1),o.status,o.backend,o.name,o.detail, o.model,flush=True)
V.VC._discharge=d
opts=dict(u.opts); opts['timeout_ms']=int(sys.argv[3]) if len(sys.argv)>3 else 3000
if len(sys.argv)>3: opts['cvc5']=False
r=V.explore(u.name,u.run,**opts)
print(r.status,r.unsupported,r.error,'paths',r.paths,'obl',len(r.obligations),round(r.wall,1))
