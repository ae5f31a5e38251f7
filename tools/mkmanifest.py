#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props/"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'P35': 'the batch estimator is C++ on top of maplab/Ceres/Eigen, none of which is available here, so neither the code nor '
           'its intermediate representation can be built or encoded; its result also depends on the numerical optimiser itself',
    'P36': 'the target extractor is C++ on top of ROS, aslam_cv and OpenCV, which are not available here, so the code cannot be '
           'compiled to anything the symbolic engine could execute',
}
NOTE = ('symbolic execution of the Python source in exact real arithmetic over all values within the bounds recorded in the '
        'evidence; rounding of floating point is outside the model (stated tolerances), environment stubs are listed in DESIGN.md')
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
  i = json.loads(l)['id']
  if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
    checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='symbolic execution of the source with SMT (z3, cvc5)',
                       level='model_checking', level_note=NOTE))
  else:
    na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
         notes='Exit status 2 of a check means inconclusive. Known findings: known_findings.txt.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
