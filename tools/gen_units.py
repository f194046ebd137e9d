"""Writes UNITS.md: every unit (proof) and stand-in (bounded run) of every check with the functions it is about."""
import importlib, json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
import checks  # noqa: F401,E402


def name(f):
    f = getattr(f, 'fget', None) or getattr(f, '__func__', f)
    return f'{getattr(f, "__module__", "?").replace("ratarmountcore.", "")}:{getattr(f, "__qualname__", f)}'


TITLES = {p['id']: p['title'] for p in map(json.loads, open(os.path.join(HERE, 'properties.jsonl'))) if p}
lines = ['# Units and stand-ins', '', 'Generated by `tools/gen_units.py`. `proof` = a deductive unit, for all inputs; `bounded` = runs on the real code.', '']
units = oracles = 0
for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
    if len(f) == 6 and f[0] == 'c' and f[1:3].isdigit():
        mod = importlib.import_module('checks.' + f[:-3])
        lines += [f'## {f[:3].upper()} {TITLES[f[:3].upper()]}', '']
        for u in mod.UNITS:
            units += 1
            lines.append(f'- proof `{u.name}`: ' + ', '.join(sorted({name(x) for x in u.functions})))
        for o in getattr(mod, 'ORACLES', []):
            oracles += 1
            lines.append(f'- bounded `{o.name}`: {o.bound} ({", ".join(sorted({name(x) for x in o.functions}))})')
        lines += ['', 'Trusted: ' + '; '.join(getattr(mod, 'TRUSTED', [])) + '.', '']
lines[3:3] = [f'{units} proofs, {oracles} bounded stand-ins.']
with open(os.path.join(HERE, 'UNITS.md'), 'w') as fh:
    fh.write('\n'.join(lines))
print(units, oracles)
