"""Refreshes the table of planted bugs in DESIGN.md (documentation only; no check reads seeded/)."""
import json, os, re
s = open('/verif/DESIGN.md').read()
rows = ['| seed | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % d)); rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
open('/verif/DESIGN.md', 'w').write(re.sub(r'<!--seeds-->.*<!--/seeds-->', lambda m: '<!--seeds-->\n' + '\n'.join(rows) + '\n<!--/seeds-->', s, flags=re.S))
