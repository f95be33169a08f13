# DESIGN.md.in + the list of planted bugs -> DESIGN.md
import os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md.in').read()
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s | %s (needs: %s) |' % (f.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
open(V + '/DESIGN.md', 'w').write(s.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@EXTRA@@\n\n', ''))
