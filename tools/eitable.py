#!/opt/veriftools/pyvenv/bin/python
"""Writes spec/EITable.tla: z Phi(z) + phi(z) for z = k/4 in fixed point, computed with 40 digits."""
import os
from sympy import Rational, erf, exp, pi, sqrt, N
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b6, man, ex = [], [], []
for k in range(-40, 41):
    z = Rational(k, 4)
    b = N(z * (1 + erf(z / sqrt(2))) / 2 + exp(-z ** 2 / 2) / sqrt(2 * pi), 40)
    b6.append(int(round(b * 10 ** 6)))
    e = 0
    while b * 10 ** e < 10 ** 5:
        e += 1
    man.append(int(round(b * 10 ** e)))
    ex.append(e)
with open(os.path.join(V, "spec", "EITable.tla"), "w") as f:
    f.write("------------------------------ MODULE EITable ------------------------------\n"
            "(* Written by tools/eitable.py.  For z = k/4, k = -40..40:                  *)\n"
            "(*   b(z) = z Phi(z) + phi(z), the expected improvement in units of the     *)\n"
            "(*   standard deviation.  EI6: 10^6 b(z);  b(z) = EIMan * 10^-EIExp.        *)\n"
            "EXTENDS Integers, Sequences\n")
    for n, v in (("EI6T", b6), ("EIManT", man), ("EIExpT", ex)):
        f.write("%s == <<%s>>\n" % (n, ", ".join(map(str, v))))
    f.write("EI6(k) == EI6T[k + 41]\nEIMan(k) == EIManT[k + 41]\nEIExp(k) == EIExpT[k + 41]\n")
    f.write("=" * 77 + "\n")
