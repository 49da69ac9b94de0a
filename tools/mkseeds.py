#!/usr/bin/env python3
"""refreshes the table of planted bugs in DESIGN.md"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    r.append("| %s | %s | %s | %s |" % (os.path.basename(d), m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(r) + '\n<!-- /seeds -->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
