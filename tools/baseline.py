"""Records the hashes of the verified functions (accepted source).  Only used to tell a solver time-out on unchanged
source from an obligation that a change broke."""
import importlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import checks
from pyvc import harness
out = {}
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
for f in sorted(os.listdir(os.path.join(here, 'checks'))):
    if len(f) == 6 and f[0] == 'c' and f[1:3].isdigit():
        mod = importlib.import_module('checks.' + f[:-3])
        for r in harness.verify(list(mod.UNITS)):
            out.update(r['sources'])
            if r['status'] != 'proved':
                print(f, r['name'], r['status'], r['unsupported'] or r['error'] or r['bounded'])
with open(os.path.join(here, 'baseline.json'), 'w') as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
print(len(out), 'functions')
