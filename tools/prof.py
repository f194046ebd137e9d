import sys, os, importlib, cProfile, pstats
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import checks
from pyvc.vc import explore
mod = importlib.import_module('checks.' + sys.argv[1].lower())
u=[u for u in mod.UNITS if sys.argv[2] in u.name][0]
p=cProfile.Profile(); p.enable(); r=explore(u.name,u.run,**u.opts); p.disable()
print(r.status, r.paths, r.wall)
pstats.Stats(p).sort_stats('cumulative').print_stats(45)
