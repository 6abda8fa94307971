-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* Domain maps, rounding and output transformations (C25), in integers.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
\* Unit box: the point lb + k (ub - lb) / D has the coordinate k / D.  Recorded: u (k/D times D), back (D (x - lb) / (ub - lb)
\* of the point obtained from k/D), whether they were whole numbers (up to the rounding of the arithmetic).
BoxBad(c) ==
  (IF c.exc = "" THEN {} ELSE {"a map fails"}) \cup
  (IF c.exc # "" \/ (Len(c.u) = Len(c.k) /\ \A i \in DOMAIN c.k : c.u[i] = c.k[i]) THEN {} ELSE {"a point is mapped to the wrong place of the unit box"}) \cup
  (IF c.exc # "" \/ (Len(c.back) = Len(c.k) /\ \A i \in DOMAIN c.k : c.back[i] = c.k[i]) THEN {} ELSE {"a point of the unit box is mapped to the wrong place"}) \cup
  (IF c.exc # "" \/ c.round THEN {} ELSE {"the maps are not inverse to each other"}) \cup (IF c.kept THEN {} ELSE {"an argument was changed"})
\* Rounding: x and r in quarters (rows of coordinates), bounds whole
Nearest(q, n, lb, ub) == /\ lb <= n /\ n <= ub /\ (n + 1 <= ub => Abs(4 * n - q) <= Abs(4 * n + 4 - q)) /\ (n - 1 >= lb => Abs(4 * n - q) <= Abs(4 * n - 4 - q))
RoundBad(c) ==
  IF c.exc # "" THEN {"rounding fails"} ELSE
  LET I == {c.ints[k] : k \in DOMAIN c.ints} IN
  IF Len(c.r) # Len(c.x) \/ ~c.whole THEN {"rounding returns something else"} ELSE
  UNION {UNION {IF j \in I THEN (IF c.r[i][j] % 4 = 0 /\ Nearest(c.x[i][j], c.r[i][j] \div 4, c.lb[j], c.ub[j]) THEN {} ELSE {"an integer variable is not rounded to the nearest integer in its bounds"})
                 ELSE (IF c.r[i][j] = c.x[i][j] THEN {} ELSE {"a continuous variable was changed"}) : j \in DOMAIN c.x[i]} : i \in DOMAIN c.x}
  \cup (IF c.kept THEN {} ELSE {"an argument was changed"})
\* Rescaling: x whole; r is 1000 times the result times (max - min)
Max(x) == CHOOSE a \in {x[i] : i \in DOMAIN x} : \A i \in DOMAIN x : x[i] <= a
Min(x) == CHOOSE a \in {x[i] : i \in DOMAIN x} : \A i \in DOMAIN x : x[i] >= a
ScaleBad(c) ==
  IF c.exc # "" THEN {"rescaling fails"} ELSE
  LET w == Max(c.x) - Min(c.x) IN
  (IF Len(c.r) = Len(c.x) /\ c.shape THEN {} ELSE {"rescaling changes the shape"})
  \cup (IF Len(c.r) # Len(c.x) THEN {} ELSE IF w = 0 THEN (IF \A i \in DOMAIN c.x : c.one[i] THEN {} ELSE {"a constant vector is not mapped to ones"})
        ELSE (IF \A i \in DOMAIN c.x : Abs(c.r[i] - 1000 * (c.x[i] - Min(c.x))) <= 1 THEN {} ELSE {"rescaling is not affine"})
             \cup (IF \A i \in DOMAIN c.x : (c.x[i] = Min(c.x) => c.zero[i]) /\ (c.x[i] = Max(c.x) => c.one[i]) THEN {} ELSE {"the minimum is not 0 or the maximum not 1"}))
  \cup (IF c.kept THEN {} ELSE {"an argument was changed"})
\* Capping: x and r in halves
CountLe(x, a) == Cardinality({i \in DOMAIN x : x[i] <= a})
Kth(x, k) == CHOOSE a \in {x[i] : i \in DOMAIN x} : CountLe(x, a) >= k /\ \A b \in {x[i] : i \in DOMAIN x} : CountLe(x, b) >= k => a <= b
Median2(x) == LET n == Len(x) IN IF n % 2 = 1 THEN 2 * Kth(x, (n + 1) \div 2) ELSE Kth(x, n \div 2) + Kth(x, n \div 2 + 1)
CapBad(c) ==
  IF c.exc # "" THEN {"a transformation fails"} ELSE
  (IF Len(c.r) = Len(c.x) /\ c.shape THEN {} ELSE {"a transformation changes the shape"})
  \cup (IF Len(c.r) = Len(c.x) /\ c.whole /\ \A i \in DOMAIN c.x : 2 * c.r[i] = (IF c.kind = "cap" /\ 2 * c.x[i] > Median2(c.x) THEN Median2(c.x) ELSE 2 * c.x[i])
        THEN {} ELSE {IF c.kind = "cap" THEN "capping is wrong" ELSE "the identity is wrong"})
  \cup (IF c.kept THEN {} ELSE {"an argument was changed"})
MapBad(c) == CASE c.kind = "box" -> BoxBad(c) [] c.kind = "round" -> RoundBad(c) [] c.kind = "scale" -> ScaleBad(c) [] c.kind \in {"cap", "same"} -> CapBad(c)
=============================================================================
