#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harness directives.

A property is claimed when some harness has a //gosym:job line for it.
"""
import glob, json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jobs = {}
real = set()
for f in glob.glob(root + '/harness/*/*.go'):
    for l in open(f):
        m = re.match(r'//gosym:job (C\d\d) ?(.*)', l)
        if m:
            jobs.setdefault(m[1], []).append(m[2])
            if 'real' in m[2].split():
                real.add(m[1])
NA = {}
na_file = root + '/tools/not_applicable.json'
if os.path.exists(na_file):
    NA = json.load(open(na_file))
checks, na = [], []
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in jobs:
        note = ('Every path of the real code (go/ssa form of /repo, including the standard library code it calls) is executed '
                'symbolically within the stated bounds; z3/cvc5 decide every branch and assertion; counterexamples are replayed natively. '
                'Bounded: nothing is claimed outside the bounds in evidence.')
        if i in real:
            note += ' Some jobs interpret float64 as real numbers (elementary functions with bounds, monotonicity and algebraic laws) and use tolerances for rounding.'
        checks.append({
            'property': i,
            'quick_cmd': './run.sh %s quick' % i,
            'thorough_cmd': './run.sh %s thorough' % i,
            'technique': 'bounded symbolic execution of the Go SSA with SMT solving (gosym, z3, cvc5)',
            'level': 'model_checking',
            'level_note': note,
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na}, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
