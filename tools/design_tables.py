"""Refreshes the numbers of cases and the table of planted changes in DESIGN.md."""
import collections
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt.core import QUICK  # noqa: E402

path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
count = {}
for f in glob.glob(os.path.join(HERE, 'pbt/props/c*.py')):
    found = re.findall(r'Sub\(.*?\bn=(\d+)', open(f).read(), re.S)
    count[os.path.basename(f)[:-3].upper()] = QUICK * sum(map(int, found))
s = re.sub(r'^\| (C\d\d) \|.*\| \d+ \|$',
           lambda m: re.sub(r'\| \d+ \|$', '| %d |' % count[m.group(1)], m.group(0)), s, flags=re.M)
tab = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    tab[json.load(open(f))['property']].append(f.split('/')[-2])
rows = ['| property | planted changes caught by its check |', '|---|---|']
rows += ['| {} | {} |'.format(k, ', '.join(v)) for k, v in sorted(tab.items())]
s = re.sub(r'\| property \| planted.*?\n\n', lambda m: '\n'.join(rows) + '\n\n', s, flags=re.S)
s = re.sub(r'`seeded/` holds \d+', '`seeded/` holds %d' % sum(map(len, tab.values())), s)
open(path, 'w').write(s)
