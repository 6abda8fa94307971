-------------------------- MODULE SurrogateDataGen --------------------------
(* All sequences of at most L operations on a surrogate.  There are two pools *)
(* of data; additions take the next points of the current pool.  A prediction *)
(* needs NMIN points; one with fewer is an "early" one, which may raise.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS L, NMIN, NMAX
VARIABLES ops, n, pool, fresh
vars == <<ops, n, pool, fresh>>
Init == ops = <<>> /\ n = 0 /\ pool = 1 /\ fresh = TRUE
Add == \E k \in {1, 2, NMIN} : n + k <= NMAX /\ ops' = Append(ops, <<"add", pool, n, k>>) /\ n' = n + k /\ UNCHANGED pool /\ fresh' = TRUE
\* predicting twice without anything in between is tried once only
Predict == \E kind \in {"value", "other"} : n >= NMIN /\ (fresh \/ kind = "other") /\ ops' = Append(ops, <<"predict", kind>>) /\ fresh' = FALSE /\ UNCHANGED <<n, pool>>
Early == n < NMIN /\ fresh /\ ops' = Append(ops, <<"early">>) /\ fresh' = FALSE /\ UNCHANGED <<n, pool>>
Reset == n > 0 /\ \E p \in 1..2 : ops' = Append(ops, <<"reset">>) /\ pool' = p /\ n' = 0 /\ fresh' = TRUE
Scribble == Len(ops) > 0 /\ ops[Len(ops)][1] \in {"add", "predict"} /\ ops' = Append(ops, <<"scribble">>) /\ UNCHANGED <<n, pool, fresh>>
Next == Len(ops) < L /\ (Add \/ Predict \/ Early \/ Reset \/ Scribble)
Spec == Init /\ [][Next]_vars
Emit == (Len(ops) >= 3 /\ n >= NMIN /\ (\A k \in DOMAIN ops : k <= Len(ops) => TRUE)) => PrintT("SCHED " \o ToJson(ops))
=============================================================================
