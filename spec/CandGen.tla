------------------------------ MODULE CandGen ------------------------------
(* Configurations of the candidate generators: for every coordinate its type, *)
(* the place of the centre and whether it may be perturbed.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
Coord == [int : BOOLEAN, at : {"low", "mid", "high"}, sub : BOOLEAN, range : {1, 8, 100}]
VARIABLES gen, cs, h, p
Init == /\ gen \in {"srbf", "dycors", "uniform"} /\ cs \in UNION {[1..d -> Coord] : d \in 1..D}
        /\ \E j \in DOMAIN cs : cs[j].sub
        /\ h \in {0, 3, 6} /\ p \in {1000, 500, 60, 1}
        /\ gen # "dycors" => p = 1000
        /\ gen = "uniform" => h = 0
Next == FALSE /\ UNCHANGED <<gen, cs, h, p>>
Spec == Init /\ [][Next]_<<gen, cs, h, p>>
Emit == PrintT("CASE " \o ToJson([gen |-> gen, cs |-> cs, h |-> h, p |-> p]))
=============================================================================
