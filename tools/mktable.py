"""Rewrites the planted bug table of DESIGN.md from seeded/*/meta.json and tools/caught.txt (written by hand from runs)."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.split() for l in open(os.path.join(ROOT, 'tools', 'caught.txt')) if l.strip())
s = open(os.path.join(ROOT, 'DESIGN.md')).read()
i = s.index('## Planted bugs')
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    b = os.path.basename(d)
    rows.append((m['property'], b, m['needs'], caught.get(b, 'not run')))
rows.sort()
t = '''## Planted bugs

Each was written from a property's text; quick tier, result of the check of that property on the patched tree.

| property | bug | needs in order to manifest | check |
|---|---|---|---|
''' + ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(s[:i] + t)
