"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the SEEDED markers)."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first_missed = set(open(os.path.join(root, 'tools', 'first_missed.txt')).read().split())
rows = ['| bug | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s%s |' % (i, m['what_it_breaks'], m['needs'], m['property'], ' (after strengthening)' if i in first_missed else ''))
p = os.path.join(root, 'DESIGN.md'); t = open(p).read()
t = re.sub(r'@SEEDED@|<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', t, flags=re.S)
open(p, 'w').write(t)
