------------------------------ MODULE ParetoGen ------------------------------
(* All sets of at most N points with M objectives of values 0..V. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS M, N, V
VARIABLES c
Init == \E n \in 1..N : c \in [1..n -> [1..M -> 0..V]]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
\* the layers partition the points, whatever the points are
P == INSTANCE Pareto
Consistent == LET r == P!Ranks(c, Len(c)) IN
  /\ \A i \in DOMAIN c : r[i] >= 1
  /\ \A i, j \in DOMAIN c : P!Dominates(c[i], c[j]) => r[i] < r[j]
  /\ \A i \in DOMAIN c : r[i] > 1 => \E j \in DOMAIN c : r[j] = r[i] - 1 /\ P!Dominates(c[j], c[i])
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
