#!/opt/veriftools/pyvenv/bin/python
"""Writes spec/ProblemTable.tla: the transcendental parts of the test problems on lattices, in fixed point, from the
published formulas (surjano's virtual library; docstrings for Exponential), computed with 30 digits."""
import os
from sympy import Rational as Q, cos, exp, pi, sin, sqrt, N
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = lambda e, s: int(round(N(e * s, 30)))
out = []


def fun(name, args, f):
    """A TLA+ operator for a nested table; args: list of (variable, range)."""
    def seq(pre, rest):
        if not rest:
            return str(f(*pre))
        return "<<" + ", ".join(seq(pre + [k], rest[1:]) for k in rest[0][1]) + ">>"
    out.append("T_%s == %s" % (name, seq([], args)))
    idx = "".join("[%s - (%d)]" % (v, rg[0] - 1) for v, rg in args)
    out.append("%s(%s) == T_%s%s" % (name, ", ".join(v for v, _ in args), name, idx))


fun("AckR", [("n", range(1, 7)), ("k", range(0, 385))], lambda n, k: r(20 * exp(-Q(1, 5) * sqrt(Q(k, 4 * n))), 10 ** 6))
fun("AckE", [("n", range(1, 7)), ("m", range(-6, 7))], lambda n, m: r(exp(Q(m, n)), 10 ** 6) if abs(m) <= n else 0)
b, c, t = Q(51, 10) / (4 * pi ** 2), 5 / pi, 1 / (8 * pi)
fun("BraA", [("u", range(-5, 11))], lambda u: r(-b * u * u + c * u - 6, 1000))
fun("BraC", [("u", range(-5, 11))], lambda u: r(10 * (1 - t) * cos(u) + 10, 1000))
fun("ExpX", [("j", range(1, 21)), ("u", range(-5, 4))], lambda j, u: 0 if j * u > 12 else r(exp(j * u) - exp(-Q(512, 100) * j), 1000))
fun("GriC", [("i", range(1, 21)), ("u", range(-8, 9))], lambda i, u: r(cos(3 * u / sqrt(Q(i))), 10000))
fun("LevS", [("k", range(0, 4))], lambda k: r(sin(1 + pi * k / 4) ** 2, 10 ** 6))
fun("MicM", [("i", range(1, 21)), ("u", range(0, 9))], lambda i, u: r(sin(pi * u / 8) * sin(i * (pi * u / 8) ** 2 / pi) ** 20, 10 ** 6))
fun("SchW", [("u", range(-16, 17))], lambda u: r(32 * u * sin(sqrt(Q(abs(32 * u)))), 10000))
A3 = [["3", "10", "30"], ["0.1", "10", "35"], ["3", "10", "30"], ["0.1", "10", "35"]]
P3 = [["0.3689", "0.1170", "0.2673"], ["0.4699", "0.4387", "0.7470"], ["0.1091", "0.8732", "0.5547"], ["0.0381", "0.5743", "0.8828"]]
A6 = [["10", "3", "17", "3.5", "1.7", "8"], ["0.05", "10", "17", "0.1", "8", "14"], ["3", "3.5", "1.7", "10", "17", "8"], ["17", "8", "0.05", "10", "0.1", "14"]]
P6 = [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991], [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]]
fun("Har3", [("i", range(1, 5)), ("j", range(1, 4)), ("u", range(0, 9))], lambda i, j, u: r(exp(-Q(A3[i - 1][j - 1]) * (Q(u, 8) - Q(P3[i - 1][j - 1])) ** 2), 10000))
fun("Har6", [("i", range(1, 5)), ("j", range(1, 7)), ("u", range(0, 9))], lambda i, j, u: r(exp(-Q(A6[i - 1][j - 1]) * (Q(u, 8) - Q(P6[i - 1][j - 1], 10000)) ** 2), 10000))
with open(os.path.join(V, "spec", "ProblemTable.tla"), "w") as f:
    f.write("---------------------------- MODULE ProblemTable ----------------------------\n(* Written by tools/problemtable.py: the parts of the published formulas that *)\n"
            "(* are not rational, on lattices, in fixed point.                             *)\nEXTENDS Integers, Sequences\n" + "\n".join(out) + "\n" + "=" * 77 + "\n")
