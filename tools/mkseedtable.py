"""Regenerates the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '\\|'), m['property']))
s = open(root + '/DESIGN.md').read()
ls = s.split('\n')
i = [n for n, l in enumerate(ls) if re.match(r'\| c\d\d-', l)]
ls[i[0]:i[-1] + 1] = rows
open(root + '/DESIGN.md', 'w').write('\n'.join(ls))
