"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib, json, os, sys
here = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, here)
import checks  # noqa
NA = json.load(open(os.path.join(here, 'tools', 'not_applicable.json')))
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m pyvc.selftest', 'checks': [], 'not_applicable': []}
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)['id']
    if not os.path.exists(os.path.join(here, 'checks', p.lower() + '.py')):
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'No check built for it yet.')})
        continue
    mod = importlib.import_module('checks.' + p.lower())
    level = getattr(mod, 'LEVEL', 'proof')
    fns = sorted({f.__qualname__ for u in mod.UNITS for f in u.functions if hasattr(f, '__qualname__')})
    note = getattr(mod, 'NOTE', '') or (
        'Verification conditions for ' + ', '.join(fns)[:700] + ' are generated from the current source and discharged for all '
        'inputs by z3/cvc5. Functions out of reach are run against a reference within stated bounds (never counted as proved). '
        'Trusted: the generator\'s semantics of Python, and: ' + '; '.join(getattr(mod, 'TRUSTED', []))
        + '. Assumes: ' + '; '.join(getattr(mod, 'ASSUMPTIONS', [])))
    m['checks'].append({
        'property': p, 'quick_cmd': f'/opt/venv/bin/python run_check.py {p} --tier quick',
        'thorough_cmd': f'/opt/venv/bin/python run_check.py {p} --tier thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'contract-based deductive verification of the Python source (verification conditions by pyvc, discharged by z3/cvc5); bounded runs of the real code where the verifier does not reach',
        'level': level, 'level_note': note[:2500]})
m['notes'] = 'See DESIGN.md. Functions are extracted from /repo on every run; no hooks are needed in /repo.'
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
