------------------------------- MODULE Merit -------------------------------
(***************************************************************************)
(* Weighted-distance selection (C11).                                      *)
(*   base[i]    distance of candidate i to the nearest evaluated or        *)
(*              pending point            pair[i][j]  between candidates    *)
(*   f[i]       prediction at candidate i                                  *)
(*   w          one weight per point, in units of 1/wd                     *)
(*   lo, hi     a candidate closer than lo is inadmissible, one at least   *)
(*              hi away is admissible (lo = hi = the minimum distance when *)
(*              everything is exact)                                       *)
(*   tol        slack in the comparison of merits (0: exact)               *)
(* With integers all merits have the common denominator wd * (range of the *)
(* predictions) * (range of the distances), so numerators are compared.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxV(v) == CHOOSE x \in {v[i] : i \in DOMAIN v} : \A i \in DOMAIN v : v[i] <= x
MinV(v) == CHOOSE x \in {v[i] : i \in DOMAIN v} : \A i \in DOMAIN v : v[i] >= x
\* unit rescaling as a fraction: numerators and common denominator
Den(v) == IF MaxV(v) = MinV(v) THEN 1 ELSE MaxV(v) - MinV(v)
Num(v) == IF MaxV(v) = MinV(v) THEN [i \in DOMAIN v |-> 1] ELSE LET m == MinV(v) IN [i \in DOMAIN v |-> v[i] - m]

\* numerators of  w * s + (1 - w) * (1 - d)  for all candidates
Merits(f, dist, w, wd) ==
  LET a == Num(f)  da == Den(f)  b == Num(dist)  db == Den(dist)
  IN [i \in DOMAIN f |-> w * a[i] * db + (wd - w) * (db - b[i]) * da]

NearSel(base, pair, chosen) ==
  [i \in DOMAIN base |-> MinV([k \in 1..(Len(chosen) + 1) |-> IF k = 1 THEN base[i] ELSE pair[i][chosen[k - 1]]])]

\* is candidate j a right choice after chosen?
Right(c, w, chosen, j) ==
  LET dist == NearSel(c.base, c.pair, chosen)
      free == {i \in DOMAIN c.f : ~\E k \in DOMAIN chosen : chosen[k] = i}
      sure == {i \in free : dist[i] >= c.hi}
      may == {i \in free : dist[i] >= c.lo}
      m == Merits(c.f, dist, w, c.wd)
  IN sure = {} \/ (j \in may /\ \A i \in sure : m[j] <= m[i] + c.tol)

\* sel[k] is the set of candidates at the k-th selected point (copies of one point are the same)
RECURSIVE Selection(_, _, _)
Selection(c, k, chosen) ==
  IF k > Len(c.sel) THEN {}
  ELSE LET here == {c.sel[k][i] : i \in DOMAIN c.sel[k]}
           free == here \ {chosen[i] : i \in DOMAIN chosen}
           good == {j \in free : Right(c, c.w[k], chosen, j)}
           dist == NearSel(c.base, c.pair, chosen)
           admissible == \E i \in DOMAIN c.f : dist[i] >= c.hi /\ ~\E l \in DOMAIN chosen : chosen[l] = i
       IN IF here = {} THEN {"selected point is not a candidate"}
          ELSE IF free = {} /\ admissible THEN {"candidate selected twice"}
          ELSE IF free # {} /\ good = {} THEN {"not the best admissible candidate"}
          ELSE Selection(c, k + 1, Append(chosen, CHOOSE j \in (IF good # {} THEN good ELSE here) : TRUE))
Bad(c) == (IF c.exc # "" THEN {"exception"} ELSE
           IF Len(c.sel) # Len(c.w) THEN {"wrong number of points"} ELSE Selection(c, 1, <<>>))
=============================================================================
