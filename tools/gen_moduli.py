#!/usr/bin/env python3
"""Writes units/moduli.vrs: Pratt certificates (found with sympy, checked by the prover) that the Mersenne moduli of jester_maths are prime.
Run with python3-vt; the output is committed."""
from sympy import factorint, isprime
NAMES = {2: 2, 3: 3, 5: 5, 13: 13, 17: 17, 19: 19, 31: 31, 61: 61, 89: 89, 107: 107, 127: 127}
done, out = set(), []
def cert(n, name, expr, ensure):
    if n in done and name.startswith('pr_'): return
    f = factorint(n - 1)
    for q in sorted(f):
        if q not in done: cert(q, 'pr_%d' % q, '%dint' % q, '%dint' % q)
    if name.startswith('pr_'): done.add(n)
    if n == 2:
        out.append('proof fn %s() ensures is_prime(%s) { two_is_prime(); }' % (name, ensure)); return
    L = ['proof fn %s() ensures is_prime(%s)\n{' % (name, ensure)]
    if expr != ensure: L.append('    assert(%s == %dint) by(compute_only);' % (ensure, n))
    L.append('    good_one(%dint);' % n)
    F = 1
    for q, e in sorted(f.items()):
        a = 2
        while pow(a, n - 1, n) != 1 or pow(a, (n - 1) // q, n) == 1: a += 1
        w = pow(pow(a, (n - 1) // q, n) - 1, -1, n)
        G = F * q ** e
        L.append('    pr_%d(); assert(step_ok(%dint, %dint, %dint, %d, %dint, %dint, %dint)) by(compute_only); good_step(%dint, %dint, %dint, %d, %dint, %dint, %dint);' % ((q,) + (n, F, q, e, a, w, G) * 2))
        F = G
    assert F == n - 1
    L.append('    good_end(%dint);\n}' % n)
    out.append('\n'.join(L))
for k in NAMES:
    n = 2 ** k - 1
    assert isprime(n)
    cert(n, 'prime_Mersenne%d' % k, None, 'modulus_Mersenne%d()' % k)
open(__file__.replace('tools/gen_moduli.py', 'units/moduli.vrs'), 'w').write('''//@include lib/head_fieldc.vrs
//@include lib/numtheory.vrs
//@include lib/pratt.vrs
//@moduli jester_maths/src/prime.rs
// certificates, written by tools/gen_moduli.py
''' + '\n'.join(out) + '\n} fn main() {}\n')
