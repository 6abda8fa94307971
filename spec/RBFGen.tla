------------------------------- MODULE RBFGen -------------------------------
(* All kinds of RBF models and data. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c
Init == \E kernel \in {"cubic", "tps", "linear"}, tail \in {"linear", "constant"}, tr \in {"none", "median"}, dim \in 1..4, extra \in {0, 1, 2, 7},
           how \in {"poly", "any"}, eta \in {"default", "tiny"}, box \in {"unit", "wide", "uneven"}, split \in {"once", "each", "mixed"} :
          /\ (tail = "constant" => kernel = "linear")
          /\ c = [kernel |-> kernel, tail |-> tail, tr |-> tr, dim |-> dim, extra |-> extra, how |-> how, eta |-> eta, box |-> box, split |-> split]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("CASE " \o ToJson(c))
=============================================================================
