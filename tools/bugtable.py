"""Writes the table of planted bugs into DESIGN.md."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | breaks |', '|---|---|---|']
for name in sorted(os.listdir(ROOT + '/seeded')):
    meta = json.load(open(f'{ROOT}/seeded/{name}/meta.json'))
    rows.append(f'| {name} | {meta["needs"]} | {meta["what_it_breaks"]} |'.replace('\n', ' '))
text = open(ROOT + '/DESIGN.md').read()
text = re.sub(r'<!-- bugs -->.*<!-- /bugs -->', lambda m: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', text, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(text)
