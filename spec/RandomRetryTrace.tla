-------------------------- MODULE RandomRetryTrace --------------------------
(* Judges recorded runs of the real random strategy.                         *)
(* bag: the points of a run from the same seed in which nothing fails and    *)
(* nothing is rejected (numbered in the order of that run)                   *)
EXTENDS RandomRetry, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s, bad
vars == <<t, i, s, bad>>
Tr == Traces[t]
Add(b, cl, k) == b \cup {<<n, k>> : n \in {n \in cl : ~\E x \in b : x[1] = n}}
Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ s = Start(Tr.bag)
        /\ bad = (IF Tr.exc # "" THEN {<<"exception", 0>>} ELSE IF Len(Tr.bag) # Tr.M THEN {<<"number of points is not the budget", 0>>} ELSE {})
Next == /\ i <= Len(Tr.ev) /\ i' = i + 1 /\ t' = t
        /\ LET e == Tr.ev[i] IN
           IF e.exc # "" THEN s' = s /\ bad' = Add(bad, {"exception"}, i)
           ELSE IF bad = {} /\ ~WellFormed(s, e) THEN s' = s /\ bad' = Add(bad, {"harness: ill-formed event"}, i)
           ELSE IF ~WellFormed(s, e) THEN s' = s /\ bad' = bad
           ELSE s' = Step(s, e) /\ bad' = Add(bad, Clauses(s, e), i)
Spec == Init /\ [][Next]_vars
Finished == i > Len(Tr.ev)
Final == IF Finished /\ ~s.over THEN Add(bad, {"run does not terminate"}, Len(Tr.ev)) ELSE bad
Verdict == Finished => PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.ev), bad |-> Final]))
=============================================================================
