"""tools/seeded.md from the planted bugs"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
missed = {}
try:
    missed = json.load(open(os.path.join(here, 'tools', 'missed.json')))
except FileNotFoundError:
    pass
for n in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', n, 'meta.json')))
    rows.append('| {} | {} | {} | {} |'.format(n, m['property'], m['needs'], missed.get(n, m['property'] + ' quick')))
open(os.path.join(here, 'tools', 'seeded.md'), 'w').write('\n'.join(rows) + '\n')
