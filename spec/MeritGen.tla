------------------------------ MODULE MeritGen ------------------------------
(* All small selection problems on the integers 0..P: candidates, evaluated *)
(* and pending points, predictions, weights in halves, minimum distance.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P, MAXX, MAXF
Sets(lo, hi) == {S \in SUBSET (0..P) : Cardinality(S) \in lo..hi}
VARIABLES c
Init == \E C \in Sets(2, 3), X \in Sets(1, MAXX), Q \in {{}, {1}}, n \in 1..2, t \in 0..2 :
          \E f \in [C -> 0..MAXF], w \in [1..n -> 0..2] :
            c = [cand |-> C, x |-> X, pend |-> Q, f |-> [p \in 0..P |-> IF p \in C THEN f[p] ELSE 0], w |-> w, dtol |-> t]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("CASE " \o ToJson([c EXCEPT !.f = [i \in 1..(P + 1) |-> c.f[i - 1]]]))
=============================================================================
