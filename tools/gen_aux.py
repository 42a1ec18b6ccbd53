#!/usr/bin/env python3-vt
"""Writes data/aux.json: reference values of zeta(n), -eta(n), 1/n!, H_n (25 digits)."""
import json, os
from mpmath import mp, mpf, zeta, altzeta, factorial, harmonic, nstr
mp.dps = 40
s = lambda x: nstr(x, 25, min_fixed=0, max_fixed=0)
d = {'zeta': {}, 'neg_eta': {}, 'inv_fac': {}, 'harmonic': {}}
for n in range(-320, 321):
    if n != 1:
        d['zeta'][n] = s(zeta(n))
    d['neg_eta'][n] = s(-altzeta(n))
for n in range(0, 400):
    d['inv_fac'][n] = s(1/factorial(n))
for n in list(range(1, 600)) + [10**k + j for k in range(3, 19) for j in (-1, 0, 1)]:
    d['harmonic'][n] = s(harmonic(mpf(n)))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'aux.json'), 'w').write(json.dumps(d, indent=0) + '\n')
