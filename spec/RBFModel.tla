------------------------------ MODULE RBFModel ------------------------------
(***************************************************************************)
(* RBF models (C17).  Data points have integer coordinates k (the box is   *)
(* lb + step * k), data values are integers.  Everything recorded is in    *)
(* thousandths of a unit of the values, gradients are per unit of k.       *)
(*   x, f      data          tr   transformation of the values             *)
(*   poly      <<a0, .., ad>> when f is this polynomial, else <<>>         *)
(*   q, val, grad            queries (integer), predictions, gradients     *)
(*   at        predictions at the data                                     *)
(*   tol, tolp tolerances of interpolation (regularised) and of the rest   *)
(*   same      predictions of equivalent models: other order, other split  *)
(*             into additions, other box, documented equations solved      *)
(*   fd        <<s(x + h) - s(x), s(x - h) - s(x), 2 h s'(x)>> for each    *)
(*             coordinate, in millionths (times a common factor)           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Dot(_, _, _)
Dot(a, k, i) == IF i > Len(k) THEN 0 ELSE a[i + 1] * k[i] + Dot(a, k, i + 1)
Poly(a, k) == a[1] + Dot(a, k, 1)

\* the order statistics; the median in halves
Below(v, i) == Cardinality({j \in DOMAIN v : v[j] < v[i] \/ (v[j] = v[i] /\ j < i)})
Nth(v, n) == v[CHOOSE i \in DOMAIN v : Below(v, i) = n - 1]
Median2(v) == LET n == Len(v) IN IF n % 2 = 1 THEN 2 * Nth(v, (n + 1) \div 2) ELSE Nth(v, n \div 2) + Nth(v, n \div 2 + 1)
Transformed2(v, tr) == IF tr = "median" THEN [i \in DOMAIN v |-> IF 2 * v[i] > Median2(v) THEN Median2(v) ELSE 2 * v[i]]
                       ELSE [i \in DOMAIN v |-> 2 * v[i]]

Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
RBFBad(c) ==
  IF c.exc # "" THEN {"exception"} ELSE
  LET T == Transformed2(c.f, c.tr)
      d == Len(c.x[1])
  IN (IF Near(c.at, [i \in DOMAIN T |-> 500 * T[i]], c.tol) THEN {} ELSE {"the data is not interpolated"})
     \cup (IF c.shapes = <<<<Len(c.q), 1>>, <<Len(c.q), d>>, <<1, 1>>, <<1, d>>>> THEN {} ELSE {"a prediction has the wrong shape"})
     \cup (IF c.poly = <<>> THEN {} ELSE
            (IF Near(c.val, [i \in DOMAIN c.q |-> 1000 * Poly(c.poly, c.q[i])], c.tolp) THEN {} ELSE {"a polynomial is not reproduced"})
            \cup (IF \A i \in DOMAIN c.q : Near(c.grad[i], [j \in 1..d |-> 1000 * c.poly[j + 1]], c.tolp) THEN {} ELSE {"the gradient of a polynomial is not reproduced"}))
     \cup {"equivalent models differ: " \o c.same[k].how : k \in {k \in DOMAIN c.same : ~Near(c.same[k].val, c.val, c.tolp)}}
     \cup (IF \A k \in DOMAIN c.fd : \A j \in DOMAIN c.fd[k] : LET e == c.fd[k][j] IN Abs(e[1] - e[2] - e[3]) <= c.tolf THEN {} ELSE {"a derivative is not the derivative of the prediction"})
=============================================================================
