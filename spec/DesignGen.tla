------------------------------ MODULE DesignGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS D, N
VARIABLES c
\* the boxes of a coordinate
Box == {"cont", "far", "int1", "int", "wide"}
Init == \E kind \in {"lhd", "slhd", "fact"}, d \in 1..D, n \in 1..N, it \in {1, 2, 7, 25}, unit \in BOOLEAN :
          \E b \in [1..d -> IF unit THEN {"unit"} ELSE Box] :
            /\ (kind = "fact" => n = 1 /\ it = 1) /\ (kind = "slhd" => n > 1)
            /\ c = [kind |-> kind, d |-> d, n |-> n, it |-> it, box |-> b]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
