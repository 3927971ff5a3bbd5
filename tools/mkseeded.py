"""Rewrites the table of planted bugs in DESIGN.md (between the two markers)."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
rows.sort()
t = '| caught by | change | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % (c, i, n) for p, i, n, c in rows)
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda m: '<!-- seeded -->\n%s<!-- /seeded -->' % t, s, flags=re.S)
open(p, 'w').write(s)
print(len(rows))
