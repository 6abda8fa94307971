----------------------------- MODULE AcquireGen -----------------------------
(* All small search problems on {0,..,3}: predictions, deviations (quarters), *)
(* evaluated points, minimum distance (halves), number of points, threshold.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES c
Init == \E mu \in [1..4 -> {0, 2}], sn \in [1..4 -> {1, 16}], X \in {S \in SUBSET (0..3) : Cardinality(S) \in 1..2},
           dt \in {0, 2, 4}, n \in 1..2, thr \in {"low", "high"} :
          c = [mu |-> mu, sn |-> sn, x |-> X, dt |-> dt, n |-> n, thr |-> thr]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
