"""Table of planted bugs for DESIGN.md (printed; between the markers BUGS)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | what it breaks | needs |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'], d['needs']))
s = open(V + '/DESIGN.md').read()
a, b = s.index('<!-- BUGS -->'), s.index('<!-- /BUGS -->')
k = json.load(open(V + '/known_findings.json'))
s = s[:a] + '<!-- BUGS -->\n' + '\n'.join(rows) + '\n' + s[b:]
a, b = s.index('<!-- FIXES -->'), s.index('<!-- /FIXES -->')
s = s[:a] + '<!-- FIXES -->\n' + '\n'.join('* ' + f[len('fixed: '):] for f in k['fixed']) + '\n' + s[b:]
open(V + '/DESIGN.md', 'w').write(s)
