------------------------------- MODULE SopGen -------------------------------
(* Words of outcomes for the Pareto strategy: a ask, x ask and reject, g/b    *)
(* the oldest evaluation gives a good/bad value, G/B the next one, f/F the    *)
(* oldest/next one fails.  At most LEN letters; fewer than four in flight.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT LEN
VARIABLES w, fly
Init == w = <<>> /\ fly = 0
Do(l, d) == Len(w) < LEN /\ w' = Append(w, l) /\ fly' = fly + d
Next == \/ fly < 3 /\ Do("a", 1)
        \/ Do("x", 0)
        \/ fly > 0 /\ \E l \in {"g", "b", "f"} : Do(l, -1)
        \/ fly > 1 /\ \E l \in {"G", "B", "F"} : Do(l, -1)
Spec == Init /\ [][Next]_<<w, fly>>
Emit == Len(w) = LEN => PrintT("SCHED " \o ToJson(w))
=============================================================================
