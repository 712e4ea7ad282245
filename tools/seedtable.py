"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os, glob
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(d + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], m['property'], m['what_it_breaks'].replace('|', '\\|')))
p = d + '/DESIGN.md'
s = open(p).read()
h = '\n## Planted bugs\n'
s = s.split(h)[0].rstrip() + '\n' + h + '''
Kept in seeded/ (each with a patch, a demonstration and what it needs). The quick check named reports each of them;
bugs that changed the result of an existing test, or no result at all, were thrown away. What the checks missed at first
led to more inputs: C20 (closing delimiters), C21 (long numerators), C23 (infix fractions in cells), C14 (groups of all
kinds, nested), C18 (declarations after groups in optional arguments), C13 (cells, optional arguments).

| bug | caught by | what it breaks |
|---|---|---|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
