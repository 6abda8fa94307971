------------------------------ MODULE SopJudge ------------------------------
(* Recorded runs of the Pareto strategy.  An event:                          *)
(*   op "init" (an initial evaluation completed), "choice" (new points were   *)
(*   chosen; around = the searches, <<centre point, h>>), "propose" (an       *)
(*   adaptive point is put forward), "withdrawn", "done", "fail" (adaptive;   *)
(*   step: the last one of its batch), "other"                                *)
(*   "resume" (after a crash: the memory is that of the n-th event, and the    *)
(*   pending points, pend, are lost; step: they were the rest of a batch)      *)
(*   p, v, evs, ctr (with xc, the point of the centre) after the event        *)
EXTENDS Sop, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, st
Init == t \in 1..Len(Traces) /\ st = 0
Next == st = 0 /\ st' = 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, st>>

\* the lists of centres with a new point at the first free ones; new points as observed
RECURSIVE Assigned(_, _, _)
Assigned(c, seen, n) ==
  LET k == FreeAt(c) IN
  IF n = 0 \/ k = 0 THEN c
  ELSE Assigned(TLCEval([c EXCEPT ![k] = [@ EXCEPT !.np = IF k \in DOMAIN seen /\ seen[k].np # 0 THEN seen[k].np ELSE -1]]), seen, n - 1)
RECURSIVE Around(_, _, _)
Around(evs, c, n) == LET k == FreeAt(c) IN
  IF n = 0 \/ k = 0 THEN <<>> ELSE <<<<evs[c[k].i].p, evs[c[k].i].h>>>> \o Around(evs, [c EXCEPT ![k] = [@ EXCEPT !.np = -1]], n - 1)
Plain(ctr) == TLCEval([k \in DOMAIN ctr |-> [i |-> ctr[k].i, np |-> ctr[k].np, ni |-> ctr[k].ni]])
\* the centres of the points that are lost are free again
RECURSIVE Lost(_, _, _)
Lost(ctr, pend, k) == IF k > Len(pend) THEN ctr ELSE Lost(TLCEval(Release(ctr, pend[k])), pend, k + 1)
Judge(g, e, evs, ctr) ==
  LET seen == Plain(e.ctr)
      n == Len(evs) + 1
      xc == IF \A k \in DOMAIN e.ctr : e.ctr[k].i \in DOMAIN e.evs /\ e.ctr[k].xc = e.evs[e.ctr[k].i].p THEN {} ELSE {"a centre is not at its evaluated point"}
      same == IF e.evs = evs THEN {} ELSE {"the memory changed without an update"}
      memory(x) == IF e.evs = x THEN {}
                   ELSE IF Len(e.evs) # Len(x) \/ \E i \in DOMAIN x : e.evs[i].p # x[i].p \/ e.evs[i].v # x[i].v THEN {"the evaluated points are wrong"}
                   ELSE IF \E i \in DOMAIN x : e.evs[i].nf # x[i].nf THEN {"failures are counted wrongly"}
                   ELSE IF \E i \in DOMAIN x : e.evs[i].tb # x[i].tb THEN {"the tabu memory is wrong"} ELSE {"the radius of a centre is wrong"}
      centres(x) == IF seen = x THEN {} ELSE {"the centres are wrong after " \o e.op}
  IN (IF e.exc # "" THEN {"exception"} ELSE
      xc \cup
      CASE e.op = "init" -> memory(Append(evs, Fresh(e.p, e.v))) \cup centres(ctr)
        [] e.op = "choice" ->
             LET upd == TLCEval(UpdatedAs(g, evs, ctr, seen))
                 U == {Assigned(upd, seen, e.n)}
                 A == {Around(evs, upd, e.n)}
             IN same \cup (IF seen \in U THEN {} ELSE {"the centres are wrong after a choice"})
                \cup (IF e.around = <<>> \/ e.around \in A THEN {} ELSE {"a search is not around a free centre with its radius"})
        [] e.op = "propose" -> same \cup centres(ctr) \cup (IF Owner(ctr, e.p) # 0 THEN {} ELSE {"a proposed point belongs to no centre"})
        [] e.op = "withdrawn" -> same \cup centres(Release(ctr, e.p))
        [] e.op = "done" ->
             LET e1 == Append(evs, Fresh(e.p, e.v))
                 c == Evaluated(ctr, e.p, n)
                 o == Owner(ctr, e.p)
             IN centres(c) \cup memory(IF g.async THEN Adjust(g, e1, IF o = 0 THEN Finished(c) ELSE <<c[o]>>) ELSE IF e.step THEN Adjust(g, e1, Finished(c)) ELSE e1)
        [] e.op = "fail" -> centres(Release(ctr, e.p)) \cup memory(IF ~g.async /\ e.step THEN Adjust(g, evs, Finished(Release(ctr, e.p))) ELSE evs)
        [] e.op = "resume" -> LET c == TLCEval(Lost(ctr, e.pend, 1)) IN centres(c) \cup memory(IF e.step THEN Adjust(g, evs, Finished(c)) ELSE evs)
        [] OTHER -> same \cup centres(ctr))
     \cup (IF Len(seen) <= g.nc THEN {} ELSE {"too many centres"})
RECURSIVE Walk(_, _)
Walk(tr, k) ==
  IF k > Len(tr.ev) THEN [bad |-> {}, at |-> 0]
  ELSE LET j == IF tr.ev[k].op = "resume" THEN tr.ev[k].n ELSE k - 1
           b == TLCEval(Judge(tr.g, tr.ev[k], IF j = 0 THEN <<>> ELSE tr.ev[j].evs, IF j = 0 THEN <<>> ELSE TLCEval(Plain(tr.ev[j].ctr))))
       IN IF b # {} THEN [bad |-> b, at |-> k] ELSE Walk(tr, TLCEval(k + 1))
Verdict == st = 1 => LET w == TLCEval(Walk(Traces[t], 1)) IN PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, bad |-> w.bad, at |-> w.at]))
=============================================================================
