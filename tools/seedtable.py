"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and, beside
it, what tools/seedtest.sh found (tools/seedresults.txt: one line 'ID check rc' per run)."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
res = {}
for l in open('tools/seedresults.txt'):
    i, c, rc = l.split()
    res.setdefault(i, {})[c] = rc
out = ['| change | what it breaks | caught by |', '|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    i = d.split('/')[1]
    m = json.load(open(d))
    r = res.get(i, {})
    hit = ', '.join(c for c in sorted(r) if r[c] == '1') or 'none'
    out.append('| %s | %s | %s |' % (i, m['what_it_breaks'], hit))
s = open('DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
s = s[:s.index(a) + len(a)] + '\n'.join(out) + '\n' + s[s.index(b):]
open('DESIGN.md', 'w').write(s)
