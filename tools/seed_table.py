"""Fills the table of the seeded changes in DESIGN.md from seeded/*/meta.json; CAUGHT says what reported them."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
RUNS = {'dot-link', 'negative-size', 'negative-version', 'deep-parents', 'lost-sibling', 'union-skipped-versions', 'foreign-part'}
rows = []
for n in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', n, 'meta.json')))
    rows.append(f"| {n}: {m['what_it_breaks']} (needs {m['needs']}) | {m['property']} | {'bounded runs' if n in RUNS else m.get('caught', 'proof obligation')} |")
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, rest = s.split('<!-- seeds -->\n')[0], s.split('<!-- end seeds -->')[1]
open(p, 'w').write(a + '<!-- seeds -->\n| change | property | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- end seeds -->' + rest)
