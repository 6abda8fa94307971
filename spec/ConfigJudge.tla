----------------------------- MODULE ConfigJudge ----------------------------
EXTENDS Config, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, st
Init == t \in 1..Len(Traces) /\ st = 0
Next == st = 0 /\ st' = 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, st>>
Verdict == st = 1 => PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, bad |-> ConfigBad(Traces[t])]))
=============================================================================
