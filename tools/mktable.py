#!/usr/bin/env python3
"""writes the table of the planted bugs into DESIGN.md"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs that the first version of a check missed, and what was added
MISSED = {
    'p17-max-inliers': 'sets of different sizes competing', 'p24-short-delay': 'rounding of formatted numbers', 'p25-only': 'the configuration of the perturbed experiments',
    'p33-middle': 'one free pose in a longer trajectory', 'p44-median': 'five measurements in one bin',
    'p38-swapped': 'motions of hand and eye that differ', 'p22-gap-break': 'steps of more than 0.5 s', 'p22-mean-second': 'a gap in the second trajectory', 'p29-other-clipping': 'different clipping on the two sides',
}
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
rows = ['<!-- bugs -->', '| bug | needs | breaks | caught by |', '|---|---|---|---|']
d = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(d)):
  m = json.load(open(os.path.join(d, i, 'meta.json')))
  rows.append('| %s | %s | %s | %s%s |' % (i, m['needs'], m['what_it_breaks'], m['property'], ' (added: %s)' % MISSED[i] if i in MISSED else ''))
rows.append('<!-- end of bugs -->')
t = '\n'.join(rows)
if 'PLACEHOLDER_TABLE' in s:
  s = s.replace('PLACEHOLDER_TABLE', t)
else:
  s = re.sub('<!-- bugs -->.*<!-- end of bugs -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
