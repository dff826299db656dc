"""Rewrites the table of the planted bugs in DESIGN.md."""
import glob
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (
        os.path.basename(d), m['property'], m['what_it_breaks'], m['needs']))
t = open(here + '/DESIGN.md').read()
s = ('<!-- seeded table -->\n| bug | caught by | breaks | needs |\n'
     '|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- end -->')
t = re.sub('<!-- seeded table -->.*?<!-- end -->', lambda m: s, t, flags=re.S)
open(here + '/DESIGN.md', 'w').write(t)
