------------------------- MODULE SurrogateOptTrace -------------------------
(***************************************************************************)
(* Judges recorded runs of the real strategies.  Every line of the file    *)
(* named by the environment variable TRACES is one run: its configuration, *)
(* the first design, and the events with what the strategy showed after    *)
(* each of them.  The monitor is total: it never stops at a broken clause, *)
(* goes on from the state the contract prescribes, and prints one verdict  *)
(* per run with every broken clause and the first event that broke it.     *)
(***************************************************************************)
EXTENDS SurrogateOpt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, s, bad
vars == <<t, i, s, bad>>

Tr == Traces[t]
Names(b) == {<<x[1], x[2]>> : x \in b}
Add(b, cl, k) == b \cup {<<x[1], x[2], k>> : x \in {y \in cl : y \notin Names(b)}}
\* after a crash, the budget and the initial points are matters of resuming as well
Resume(st, cl) ==
  cl \cup (IF st.crashed THEN {<<"C15", "after resuming: " \o x[2]>> : x \in {y \in cl : y[1] \in {"C01", "C04", "C06"}}}
           ELSE {})

Best(st, e) ==
  IF e.op = "ask" /\ e.res = "term" /\ e.best.r # 0
  THEN LET done == {st.fin[k] : k \in {k \in DOMAIN st.fin : st.fin[k][3] # Unknown}} IN
       IF \E f \in done : f[1] = e.best.r /\ f[3] = e.best.v /\ \A g \in done : f[3] <= g[3]
       THEN {} ELSE {<<"C15", "returned record is not the best one">>}
  ELSE {}

Init == /\ t \in 1..Len(Traces) /\ i = 1
        /\ s = Start(Tr.c, Tr.design)
        /\ bad = Add({}, IF Tr.exc # "" THEN {<<"C06", "exception at construction">>}
                         ELSE ObsClauses(Start(Tr.c, Tr.design), [op |-> "init", o |-> Tr.o]), 0)
Next ==
  /\ i <= Len(Tr.ev)
  /\ i' = i + 1 /\ t' = t
  /\ LET e == Tr.ev[i] IN
     IF e.exc # ""
     THEN s' = s /\ bad' = Add(bad, Resume(s, {<<"C06", "exception in " \o e.op>>})
                                    \cup (IF e.op \in {"crash", "torn"} THEN {<<"C15", "exception while resuming">>} ELSE {})
                                    \cup (IF Tr.ck /\ e.op \in {"done", "fail", "end"}
                                          THEN {<<"C14", "exception while a snapshot is due">>} ELSE {}), i)
     ELSE IF ~WellFormed(s, e)
     THEN s' = s /\ bad' = Add(bad, {<<"harness", "ill-formed event " \o e.op>>}, i)
     ELSE s' = Step(s, e) /\ bad' = Add(bad, Resume(s', Clauses(s, e)) \cup Best(s, e), i)
Spec == Init /\ [][Next]_vars

Finished == i > Len(Tr.ev)
Final == IF Finished /\ ~s.over /\ Tr.exc = "" /\ ~\E x \in bad : x[1] = "C06"
         THEN Add(bad, Resume(s, {<<"C06", "run does not reach termination">>}), Len(Tr.ev)) ELSE bad
Verdict == Finished => PrintT("VERDICT " \o ToJson([id |-> Tr.id, n |-> Len(Tr.ev), bad |-> Final]))
=============================================================================
