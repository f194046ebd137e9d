import sys, os, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import checks
from pyvc import harness
mod = importlib.import_module('checks.' + sys.argv[1].lower())
units = [u for u in mod.UNITS if len(sys.argv) < 3 or sys.argv[2] in u.name]
for r in harness.verify(units):
    print(r['status'], r['name'], round(r['wall'],1), 'obl time', round(sum(o['seconds'] for o in r['obligations']),1), r['unsupported'], r['error'])
    for o in sorted(r['obligations'], key=lambda o: -o['seconds'])[:6]:
        print('   ', o['seconds'], o['backend'], o['status'], o['name'])
