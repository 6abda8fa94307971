-------------------------- MODULE SurrogateOptMC --------------------------
(***************************************************************************)
(* Exhaustive exploration of every behaviour in which the strategy breaks  *)
(* no clause of SurrogateOpt, against every environment: any order of      *)
(* accept, reject, completion, failure, convergence and crash.  Checks     *)
(* that the global guarantees (budget, ledger, nothing lost, termination)  *)
(* follow from the clauses, and that the clauses can always be met.        *)
(* All adaptive points have the same id, so that equal points are in       *)
(* flight at the same time.                                                *)
(***************************************************************************)
EXTENDS SurrogateOpt, TLC

CONSTANTS M, N0, ASYNC, B, RESTARTS, KIND, NKNOWN, NASKED, WORKERS,
          MAXFAIL, MAXREJ, MAXCONV, MAXCRASH, HOLD   \* at most HOLD undecided proposals

VARIABLES s, nfail, nrej, nconv, ncrash, rid
vars == <<s, nfail, nrej, nconv, ncrash, rid>>

Cfg == [M |-> M, n0 |-> N0, async |-> ASYNC, b |-> B, restarts |-> RESTARTS, cont |-> TRUE,
        kind |-> KIND, ncent |-> 2,
        extras |-> [i \in 1..(NKNOWN + NASKED) |-> [p |-> 900 + i, v |-> IF i <= NKNOWN THEN 5 ELSE Unknown]]]
Design(k) == [i \in 1..N0 |-> 10 * k + i]
AdaptiveId == 7
Undecided(t) == Held(t) # {}
FreeQ == CHOOSE q \in 1..(HOLD + 1) : ~Holds(s, q) /\ \A k \in 1..(q - 1) : Holds(s, k)

Obs(t, conv) == [n |-> t.done, k |-> Len(t.pend), X |-> t.X, F |-> t.F, P |-> Points(t.pend),
                 L |-> t.fin, c |-> conv, sx |-> <<>>, rad |-> 0]
\* the event e0 completed with what a correct strategy shows after it
Seen(e0, conv) ==
  LET part == [e0 EXCEPT !.o = [c |-> conv, sx |-> <<>>, rad |-> 0]]
  IN [e0 EXCEPT !.o = Obs(Step(s, part), conv)]

AskEvents ==
  LET E(r, p, ds, gs) == [op |-> "ask", q |-> FreeQ, res |-> r, p |-> p, designs |-> ds, gens |-> gs,
                          search |-> <<>>, o |-> 0, file |-> "-"]
      seen == <<[X |-> Map(s.data, LAMBDA d : d[1]), F |-> Map(s.data, LAMBDA d : d[2])]>>
      new == Design(s.run + 1)
  IN {E("eval", p, <<>>, <<>>) : p \in Range(s.todo) \cup Range(s.ret) \cup {AdaptiveId}}
     \cup {E("eval", AdaptiveId, <<>>, seen)}
     \cup {E("eval", p, <<new>>, gs) : p \in Range(s.todo) \cup Range(new), gs \in {<<>>, seen}}
     \cup {E(r, 0, <<>>, gs) : r \in {"term", "none"}, gs \in {<<>>, seen}}
Replies ==
  {e \in {Seen(e0, cc) : e0 \in AskEvents, cc \in BOOLEAN} :
     /\ Clauses(s, e) = {}
     \* convergence is cleared by a restart only, and found while choosing a point only by EI and LCB
     /\ IF e.o.c = s.conv THEN TRUE
        ELSE IF e.o.c THEN MayConverge(s, e) /\ ~Restarted(e) /\ nconv < MAXCONV
        ELSE Restarted(e)
     /\ Restarted(e) => s.conv \/ nconv < MAXCONV
     /\ (e.res = "eval" /\ e.p = AdaptiveId) => s.data # <<>>}

Ask ==
  /\ ~s.over /\ Cardinality(Held(s)) < HOLD
  /\ \E e \in Replies :
       /\ s' = Step(s, e)
       /\ nconv' = nconv + (IF (e.o.c /\ ~s.conv) \/ (Restarted(e) /\ ~s.conv) THEN 1 ELSE 0)
  /\ UNCHANGED <<nfail, nrej, ncrash, rid>>
Accept ==
  /\ Len(s.pend) <= WORKERS
  /\ \E k \in Held(s) : s' = Step(s, Seen([op |-> "accept", q |-> s.pend[k].q, r |-> rid, o |-> 0, file |-> "-"], s.conv))
  /\ rid' = rid + 1
  /\ UNCHANGED <<nfail, nrej, nconv, ncrash>>
Reject ==
  /\ Len(s.pend) > WORKERS \/ nrej < MAXREJ
  /\ \E k \in Held(s) : s' = Step(s, Seen([op |-> "reject", q |-> s.pend[k].q, o |-> 0, file |-> "-"], s.conv))
  /\ nrej' = IF Len(s.pend) > WORKERS THEN nrej ELSE nrej + 1
  /\ UNCHANGED <<nfail, nconv, ncrash, rid>>
\* an adaptive completion may make the search converge (in a batch: the last one)
MayStop(it) == /\ ~it.init /\ nconv < MAXCONV /\ KIND \in {"srbf"}
               /\ ASYNC \/ (Len(s.pend) = 1 /\ s.rem = 0 /\ s.ret = <<>>)
Done ==
  /\ HOLD > 1 \/ ~Undecided(s)
  /\ \E k \in DOMAIN s.pend \ Held(s) : \E cc \in BOOLEAN :
       /\ cc = s.conv \/ (cc /\ MayStop(s.pend[k]))
       /\ s' = Step(s, Seen([op |-> "done", r |-> s.pend[k].r, v |-> 3, o |-> 0, file |-> "-"], cc))
       /\ nconv' = nconv + (IF cc # s.conv THEN 1 ELSE 0)
  /\ UNCHANGED <<nfail, nrej, ncrash, rid>>
Fail ==
  /\ HOLD > 1 \/ ~Undecided(s)
  /\ nfail < MAXFAIL
  /\ \E k \in DOMAIN s.pend \ Held(s) :
       s' = Step(s, Seen([op |-> "fail", r |-> s.pend[k].r, o |-> 0, file |-> "-"], s.conv))
  /\ nfail' = nfail + 1
  /\ UNCHANGED <<nrej, nconv, ncrash, rid>>
Crash ==
  /\ s.snap # <<>> /\ ~s.over /\ ncrash < MAXCRASH
  /\ s' = Step(s, Seen([op |-> "crash", o |-> 0, file |-> "-"], s.snap[1].conv))
  /\ ncrash' = ncrash + 1
  /\ UNCHANGED <<nfail, nrej, nconv, rid>>

Init == /\ s = Start(Cfg, Design(1))
        /\ nfail = 0 /\ nrej = 0 /\ nconv = 0 /\ ncrash = 0 /\ rid = 1
Next == Ask \/ Accept \/ Reject \/ Done \/ Fail \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask) /\ WF_vars(Accept) /\ WF_vars(Reject) /\ SF_vars(Done)

----------------------------------------------------------------------------
(* The guarantees.                                                          *)
Budget      == s.done + Len(s.pend) <= M
UsedUp      == s.over => (s.pend = <<>> /\ (s.done = M \/ (s.conv /\ ~RESTARTS)))
Ledger      == /\ Len(s.X) = NKNOWN + s.done /\ Len(s.F) = Len(s.X)
               /\ Len(SelectSeq(s.fin, LAMBDA f : f[3] # Unknown)) = s.done
OncePerInit == \A p \in s.inits : Count(s.X, p) + Count(s.todo, p) + Count(Points(s.pend), p) = 1
BatchBound  == ~ASYNC => Len(Adaptive(s)) + s.rem + Len(s.ret) <= B
NoMixing    == ~ASYNC /\ s.todo # <<>> => s.rem = 0 /\ s.ret = <<>>
DataIsRun   == /\ Len(s.data) <= Len(s.X)
               /\ s.run = 1 => s.data = [i \in DOMAIN s.X |-> <<s.X[i], s.F[i]>>]
Receptive   == (~s.over /\ (s.data # <<>> \/ s.todo # <<>>)) => Replies # {}
Terminates  == <>s.over
\* witnesses that the interesting parts are reached (each must be violated)
NeverRestart == s.run = 1
NeverDup     == \A p \in Range(Points(s.pend)) : Count(Points(s.pend), p) <= 1
NeverLate    == ~(s.todo # <<>> /\ \E k \in DOMAIN s.pend : ~s.pend[k].init)
=============================================================================
