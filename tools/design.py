"""writes DESIGN.md from docs/design.in.md, the planted changes and the obligations"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from run import obligations                                     # noqa: E402

s = open(HERE + '/docs/design.in.md').read()
rows = ['| change | property | what it breaks | caught |', '|-|-|-|-|']
missed = set(open(HERE + '/docs/missed.txt').read().split())
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
    rows.append('| %s | %s | %s | %s |' % (
        d, m['property'], m['what_it_breaks'].replace('|', '/'),
        'no' if d in missed else 'by ' + m['property']))
s = s.replace('SEEDTABLE', '\n'.join(rows))
out = []
for f in sorted(os.listdir(HERE + '/sa/props')):
    if not f.startswith('C'):
        continue
    m = importlib.import_module('sa.props.' + f[:-3])
    os_ = obligations(m)
    out.append('### %s (%d)\n' % (f[:-3], len(os_)))
    for o in os_:
        if getattr(o, 'driver', None) is None:
            out.append('* %s: %s (%s)' % (o.name, o.rule, ', '.join(o.anchors)))
    n = sum(getattr(o, 'driver', None) is not None for o in os_)
    if n:
        out.append('* and %d shared with other properties' % n)
    out.append('')
s = s.replace('OBLIGATIONS', '\n'.join(out))
open(HERE + '/DESIGN.md', 'w').write(s)
