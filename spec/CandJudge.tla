----------------------------- MODULE CandJudge -----------------------------
EXTENDS Candidates, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, st
Init == t \in 1..Len(Traces) /\ st = 0
Next == st = 0 /\ st' = 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, st>>
RunBad(tr) == ProbBad(tr) \cup UNION {Bad(tr.calls[k]) \cup V(~tr.calls[k].centre, "centre is not the best point of the run") : k \in DOMAIN tr.calls}
Verdict == st = 1 => LET tr == Traces[t] IN
  PrintT("VERDICT " \o ToJson([id |-> tr.id, bad |-> IF tr.kind = "call" THEN Bad(tr) ELSE RunBad(tr)]))
=============================================================================
