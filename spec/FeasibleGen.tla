----------------------------- MODULE FeasibleGen -----------------------------
(* Every combination, for up to D coordinates, of the kind of interval, the  *)
(* type of the variable and the place of the best point, with every source   *)
(* of points.  One line per combination.                                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
Conts == {"unit", "tiny", "shifted", "negative", "wide", "thirds", "far"}
Ints  == {"binary", "small", "negint", "bigint", "farint", "offint"}
Place == {"low", "high", "mid"}
Coord == {[box |-> b, int |-> FALSE, at |-> p] : b \in Conts, p \in Place}
         \cup {[box |-> b, int |-> TRUE, at |-> p] : b \in Ints, p \in Place}
Source == {"candidate_srbf", "candidate_dycors", "candidate_uniform", "srbf", "dycors", "sop", "random",
           "lhd", "slhd", "factorial", "ga", "ei", "lcb"}
VARIABLES d, cs, src
Init == d \in 1..D /\ cs \in [1..d -> Coord] /\ src \in Source
Next == FALSE /\ UNCHANGED <<d, cs, src>>
Spec == Init /\ [][Next]_<<d, cs, src>>
Emit == PrintT("CASE " \o ToJson([src |-> src, cs |-> cs]))
=============================================================================
