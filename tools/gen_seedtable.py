#!/usr/bin/env python3
"""gen_seedtable.py RUNSEEDS.log: writes the table of planted bugs (what they need, which clauses catch them)
into DESIGN.md between its markers.  A clause list that is long is cut."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
said = {}
for log in sys.argv[1:]:
    for l in open(log):
        m = re.match(r'(\S+)\s+(caught|MISSED)\s+rc=(\d+)\s+\d+s\s*(.*)', l)
        if m:
            said[m.group(1)] = (m.group(2), m.group(4).split())
rows = ['| bug | breaks | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    meta = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
    st, cl = said.get(i, ('not run', []))
    cl = sorted(set(c.split('.', 1)[1] if re.match(r'C\d\d\.', c) else c for c in cl))
    by = ', '.join('`%s`' % c for c in cl[:4]) + (', ...' if len(cl) > 4 else '') if st == 'caught' else st
    esc = lambda s: ' '.join(s.split()).replace('|', '\\|')
    rows.append('| %s | %s | %s | %s |' % (i, esc(meta['what_it_breaks']), esc(meta['needs']), by))
p = os.path.join(ROOT, 'DESIGN.md')
t = open(p).read()
b, e = '<!-- seeds -->\n', '<!-- /seeds -->\n'
t = t[:t.index(b) + len(b)] + '\n'.join(rows) + '\n' + t[t.index(e):]
open(p, 'w').write(t)
