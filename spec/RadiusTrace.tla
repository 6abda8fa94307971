---------------------------- MODULE RadiusTrace ----------------------------
(* Judges recorded runs: the radius and the convergence flag after every    *)
(* event.  SurrogateOpt tells which proposals are adaptive and when a batch *)
(* is finished.                                                             *)
EXTENDS SurrogateOpt, TLC, Json, IOUtils
R == INSTANCE RadiusCtl
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s, r, bad
vars == <<t, i, s, r, bad>>
Stopped == <<"stopped", 0>>  \* an exception is a matter of C06 and ends the judgement
Tr == Traces[t]
Cfg == [async |-> Tr.c.async, d |-> Tr.c.d, b |-> Tr.c.b]
Last(q) == q[Len(q)]
Over(x) == x.pend = <<>> /\ x.rem = 0 /\ x.ret = <<>> /\ x.todo = <<>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ s = Start(Tr.c, Tr.design) /\ r = R!Fresh0
        /\ bad = IF Tr.exc # "" THEN {Stopped}
                 ELSE IF Tr.o.rad # 0 THEN {<<"radius does not start at 0.2", 0>>} ELSE {}
Ctl(e, s1) ==
  CASE e.op = "ask" /\ Restarted(e) -> R!Fresh0
    \* an evaluation counts if it was proposed after the last change, whenever it was accepted
    [] e.op = "ask" /\ e.res = "eval" /\ ~Last(s1.pend).init -> R!Started(r, e.q)
    [] e.op = "reject" -> R!Withdrawn(r, e.q)
    [] e.op = "done" -> R!Completed(Cfg, r, Item(s, e.r).q, e.raw, Over(s1))
    [] e.op = "fail" -> R!Aborted(Cfg, r, Item(s, e.r).q, Over(s1))
    [] OTHER -> r
Next ==
  /\ i <= Len(Tr.ev) /\ bad = {}
  /\ t' = t /\ i' = i + 1
  /\ LET e == Tr.ev[i] IN
     IF e.exc # "" \/ ~WellFormed(s, e)
     THEN s' = s /\ r' = r /\ bad' = {Stopped}
     ELSE /\ s' = Step(s, e)
          /\ r' = Ctl(e, s')
          /\ bad' = (IF e.o.rad # r'.h THEN {<<"radius after " \o e.op, i>>} ELSE {})
                    \cup (IF e.o.c # r'.conv THEN {<<"convergence after " \o e.op, i>>} ELSE {})
Spec == Init /\ [][Next]_vars
Finished == i > Len(Tr.ev) \/ bad # {}
Verdict == Finished => PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> i - 1, bad |-> bad \ {Stopped}, h |-> r.h, conv |-> r.conv]))
=============================================================================
