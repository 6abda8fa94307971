------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* Experimental designs (C18).                                             *)
(*   kind    "lhd", "slhd", "fact";   n, d   requested                     *)
(*   rows    number of points returned, cols  coordinates                  *)
(*   col[j]  the j-th coordinate of all points:                            *)
(*     "slice"  number of the slice (0..n-1) of a continuous coordinate    *)
(*     "level"  number of the level (0..n-1), -1 when off all levels       *)
(*     "int"    integer values minus the lower bound, w = width of the box *)
(*     "corner" 0 lower, 1 upper bound, -1 anything else                   *)
(*   sure    there certainly are designs of full rank                      *)
(*   tried   the designs that were available: minimum distance (score), is *)
(*           it of full rank;  same = the ones equal to the result         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Vals(v) == {v[i] : i \in DOMAIN v}
Perm(v, n) == Len(v) = n /\ Vals(v) = 0..(n - 1)
Below(v, i) == Cardinality({j \in DOMAIN v : v[j] < v[i] \/ (v[j] = v[i] /\ j < i)})
Sorted(v) == [r \in DOMAIN v |-> v[CHOOSE i \in DOMAIN v : Below(v, i) = r - 1]]

\* a rounded Latin coordinate: the i-th smallest value comes from the i-th slice
RoundedSlices(v, w, n) ==
  LET s == Sorted(v) IN
  Len(v) = n /\ \A i \in 1..n : 2 * w * (i - 1) - n <= 2 * n * s[i] /\ 2 * n * s[i] <= 2 * w * i + n /\ s[i] >= 0 /\ s[i] <= w
\* a rounded symmetric coordinate: the i-th smallest value is the i-th level rounded
RoundedLevels(v, w, n) ==
  LET s == Sorted(v) IN
  Len(v) = n /\ \A i \in 1..n : LET x == 2 * (n - 1) * s[i] - 2 * w * (i - 1) IN -(n - 1) <= x /\ x <= n - 1
\* rounding never meets a tie, so that it commutes with the reflection
NoTie(w, n) == \A i \in 0..(n - 1) : (2 * w * i) % (2 * (n - 1)) # n - 1
ColBad(c, kind, n) ==
  CASE c.kind = "slice" -> IF Perm(c.v, n) THEN {} ELSE {"not one point in each slice"}
    [] c.kind = "level" -> IF Perm(c.v, n) THEN {} ELSE {"not one point on each level"}
    [] c.kind = "corner" -> {}
    [] c.kind = "int" /\ kind = "lhd" -> IF RoundedSlices(c.v, c.w, n) THEN {} ELSE {"an integer coordinate is not a rounded Latin hypercube"}
    [] OTHER -> IF RoundedLevels(c.v, c.w, n) THEN {} ELSE {"an integer coordinate does not consist of rounded levels"}
Point(t, i) == [j \in DOMAIN t.col |-> t.col[j].v[i]]
Width(c, n) == IF c.kind = "int" THEN c.w ELSE n - 1
Symmetric(t) ==
  LET J == {j \in DOMAIN t.col : t.col[j].kind = "level" \/ NoTie(t.col[j].w, t.n)}
      P == {[j \in J |-> t.col[j].v[i]] : i \in 1..t.rows}
      count(x) == Cardinality({i \in 1..t.rows : \A j \in J : t.col[j].v[i] = x[j]})
  IN \A x \in P : LET y == [j \in J |-> Width(t.col[j], t.n) - x[j]] IN count(y) = count(x)
Corners(t) == {Point(t, i) : i \in 1..t.rows} = [1..t.d -> {0, 1}]

\* the designs worth returning, and the best of them
Good(t) == {k \in DOMAIN t.tried : t.tried[k].rank /\ t.tried[k].score > 0}
DesignBad(t) ==
  IF t.exc # "" THEN (IF t.error /\ (t.sure \/ Good(t) # {}) THEN {"an error although there was a design of full rank"}
                      ELSE IF t.error \/ t.refuse THEN {} ELSE {"exception"})
  ELSE IF t.refuse THEN {"accepted although too large"}
  ELSE IF t.rows # t.n \/ t.cols # t.d THEN {"wrong number of points or coordinates"}
  ELSE UNION {ColBad(t.col[j], t.kind, t.n) : j \in DOMAIN t.col}
       \cup (IF t.kind # "fact" /\ ~t.distinct THEN {"points are not distinct"} ELSE {})
       \cup (IF t.kind # "fact" /\ ~t.rank THEN {"not of full rank"} ELSE {})
       \cup (IF t.kind = "slhd" /\ ~Symmetric(t) THEN {"not symmetric"} ELSE {})
       \cup (IF t.kind = "fact" /\ ~Corners(t) THEN {"not exactly all corners"} ELSE {})
       \cup (IF ~t.intact THEN {"an argument was modified"} ELSE {})
       \cup (IF t.kind # "fact" /\ t.same # <<>> /\ \E k \in Good(t) : \A i \in DOMAIN t.same : t.tried[k].score > t.tried[t.same[i]].score + t.tol
             THEN {"not the most spread-out design that was tried"} ELSE {})
=============================================================================
