#!/usr/bin/env python3-vt
"""Reference poles of the Bessel prototypes (written to checks/bessel_ref.h).

Computed from the definition: the zeros of the reverse Bessel polynomial of
order n, divided by the n-th root of its constant term (so that the
asymptotes match a Butterworth filter). mpmath, 120 digits.
"""
import os
from mpmath import mp, mpf, mpc, polyroots, factorial
mp.dps = 120

def poles(n):
    # theta_n(x) = sum_k (2n-k)! / ((n-k)! k! 2^(n-k)) x^k
    c = [factorial(2 * n - k) / (factorial(n - k) * factorial(k) * mpf(2) ** (n - k)) for k in range(n + 1)]
    w0 = c[0] ** (mpf(1) / n)
    # scaled: x = s * w0
    cs = [ck * w0 ** k / c[0] for k, ck in enumerate(c)]
    r = polyroots(cs[::-1], maxsteps=400, extraprec=800)
    out = []
    for z in r:
        if abs(z.imag) < mpf(10) ** -60:
            z = mpc(z.real, 0)
        if z.imag >= 0:
            out.append(z)
    out.sort(key=lambda z: z.imag)
    assert sum(1 if z.imag == 0 else 2 for z in out) == n, (n, out)
    return out

lines = ['// Generated by tools/gen_bessel.py: poles with imag >= 0, imag ascending.', '#pragma once',
         'struct BesselPole { long double re, im; };', 'static BesselPole const bessel_ref[] = {']
off = [0]
for n in range(1, 50):
    ps = poles(n)
    for z in ps:
        lines.append('  {%sL, %sL},' % (mp.nstr(z.real, 25), mp.nstr(z.imag, 25) if z.imag else '0.0'))
    off.append(off[-1] + len(ps))
lines.append('};')
lines.append('// poles of order n: bessel_ref[bessel_off[n-1]] .. bessel_ref[bessel_off[n]-1]')
lines.append('static int const bessel_off[] = {%s};' % ', '.join(map(str, off)))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks', 'bessel_ref.h'), 'w').write('\n'.join(lines) + '\n')
