#!/usr/bin/env python3
"""regenerates MANIFEST.json from the registry of checks and the reasons below"""
import json, os
from checks.registry import CHECKS, TECH
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
 'C32': 'Convergence from a given initial guess depends on the conditioning of the data and on Ceres\' trust-region path: a '
        'numerical fact about runtime values that no static argument over the source bounds.',
 'C33': 'Whether a target is found depends on OpenCV\'s detectors and on pixel data; the repository\'s source only configures '
        'them, so nothing in the source decides it.',
 'C34': 'Agreement between reported covariance and observed scatter is a statistical statement about noise distributions at '
        'run time; static analysis only reaches how the covariance is requested and normalised (C08-C10).',
}
LATER = 'No check for it yet: planned, see DESIGN.md.'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level='other', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, LATER)))
m = dict(version=1, setup_cmd='bash tool/build.sh', checks=checks, not_applicable=na,
         notes='Static analysis only: /repo is parsed by a clang-based extractor on every run; no repository code is executed.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
