------------------------------- MODULE MapGen -------------------------------
(* Inputs of the maps: vectors on {0..V} up to length N, quarters to round,   *)
(* fractions of boxes.                                                        *)
EXTENDS Maps, TLC, Json
CONSTANTS N, V
VARIABLE c
Seqs(S, a, b) == UNION {[1..m -> S] : m \in a..b}
Init == c = [kind |-> "start"]
Next == c.kind = "start" /\
  \/ \E x \in Seqs(0..V, 1, N), k \in {"scale", "cap", "same"} : c' = [kind |-> k, x |-> x]
  \/ \E d \in 1..2 : \E x \in [1..d -> {-7, -6, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 10, 13}], I \in SUBSET (1..d), lo \in [1..d -> {-1, 0}], w \in [1..d -> {1, 2}] :
       c' = [kind |-> "round", x |-> x, ints |-> I, lb |-> lo, w |-> w]
  \/ \E d \in 1..2 : \E k \in [1..d -> -2..6], s \in [1..d -> 0..4] : c' = [kind |-> "box", k |-> k, box |-> s]
Spec == Init /\ [][Next]_c
Emit == c.kind # "start" => PrintT("CASE " \o ToJson(c))
=============================================================================
