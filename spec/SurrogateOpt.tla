---------------------------- MODULE SurrogateOpt ----------------------------
(***************************************************************************)
(* The contract between a pySOT surrogate strategy and the controller that *)
(* drives it.  A behaviour is a sequence of events                         *)
(*                                                                         *)
(*   ask     the controller asks for an action; the strategy answers with  *)
(*           an evaluation, with termination, or not at all                *)
(*   accept  the controller starts an evaluation that was proposed         *)
(*   reject  the controller declines it (it may decide later, and in any   *)
(*           order, about several proposals)                               *)
(*   done    an evaluation in flight completes with a value                *)
(*   fail    an evaluation in flight is killed or cancelled                *)
(*   conv    the search converges (observed, an input of this contract)    *)
(*   end     the controller has returned after accepting termination       *)
(*   crash   the process dies, and the run is resumed from its checkpoint  *)
(*   torn    the process dies while it handles a completion or a failure   *)
(*           (possibly while writing the checkpoint), and is resumed       *)
(*   norun, noresume   a run is started although the checkpoint file       *)
(*           exists, or resumed although it does not                       *)
(*                                                                         *)
(* Step(s,e) is the abstract state after event e in state s, and           *)
(* Clauses(s,e) is the set of <<property, clause>> pairs that the event    *)
(* breaks.  The same two operators are used three times:                   *)
(*   - SurrogateOptMC explores every behaviour that breaks no clause, for  *)
(*     small constants, and checks that the global guarantees follow;      *)
(*   - SurrogateOptGen has TLC produce environment schedules that are      *)
(*     replayed on the real strategies;                                    *)
(*   - SurrogateOptTrace judges every recorded run of the real code.       *)
(*                                                                         *)
(* Points and values are opaque integer ids: two points have the same id   *)
(* iff they are bit for bit the same point.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unknown == -1                       \* value of an extra point that must be evaluated

Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
In(x, q) == \E i \in DOMAIN q : q[i] = x
RECURSIVE Flatten(_)
Flatten(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flatten(Tail(qq))
RemoveAt(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Remove1(q, x) ==
  IF ~In(x, q) THEN q
  ELSE RemoveAt(q, CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x)
Map(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]
Range(q) == {q[i] : i \in DOMAIN q}

----------------------------------------------------------------------------
(* Configuration c: M budget, n0 design size, async, b batch size,          *)
(* restarts enabled, cont (continuous domain), kind, ncent, extras (a       *)
(* sequence of [p, v]).                                                     *)
(* State:                                                                   *)
(*   done  number of completed evaluations                                  *)
(*   X, F  history of points and values        fin  log of finished records *)
(*   pend  proposals not yet rejected or finished, [r, q, p, init, run]: q  *)
(*         tells undecided proposals apart (r = 0 while the controller has  *)
(*         not decided)                                                     *)
(*   todo  initial points waiting    inits  all initial points so far       *)
(*   rem   batch members not proposed yet   ret  members that came back     *)
(*   data  <<point, value>> pairs of the current run                        *)
(*   run   number of the run         conv  the search has converged         *)
(*   over  termination was proposed  snap  state at the last checkpoint     *)

Known(c) == SelectSeq(c.extras, LAMBDA x : x.v # Unknown)
Asked(c) == SelectSeq(c.extras, LAMBDA x : x.v = Unknown)

Start(c, design) ==
  LET k == Known(c) IN
  [c |-> c, done |-> 0,
   X |-> Map(k, LAMBDA x : x.p), F |-> Map(k, LAMBDA x : x.v), fin |-> <<>>,
   pend |-> <<>>, todo |-> design \o Map(Asked(c), LAMBDA x : x.p),
   inits |-> Range(design) \cup {x.p : x \in Range(Asked(c))},
   rem |-> 0, ret |-> <<>>, data |-> Map(k, LAMBDA x : <<x.p, x.v>>),
   run |-> 1, conv |-> FALSE, over |-> FALSE, crashed |-> FALSE, snap |-> <<>>]

Left(s) == s.c.M - s.done - Len(s.pend)
Points(pend) == Map(pend, LAMBDA i : i.p)
Adaptive(s) == SelectSeq(s.pend, LAMBDA i : ~i.init)
\* the item of record r
Item(s, r) == LET k == CHOOSE k \in DOMAIN s.pend : s.pend[k].r = r IN s.pend[k]
Has(s, r) == \E k \in DOMAIN s.pend : s.pend[k].r = r
Drop(s, r) == LET k == CHOOSE k \in DOMAIN s.pend : s.pend[k].r = r IN RemoveAt(s.pend, k)

----------------------------------------------------------------------------
(* Asking.                                                                  *)
(* e.res in {"eval", "term", "none"}, e.p the proposed point, e.designs the *)
(* initial designs generated while the strategy was asked (a new design is  *)
(* a restart), e.gens the data the surrogate held whenever it was queried   *)
(* (a query means that new adaptive points were chosen), e.search the       *)
(* evaluated and pending points the candidate search worked with.           *)

Restarted(e) == Len(e.designs) > 0
\* only these can find out that the search has converged while choosing a point
MayConverge(s, e) == s.c.kind \in {"ei", "lcb"} /\ Len(e.gens) > 0
AfterRestart(s, e) ==
  IF ~Restarted(e) THEN s
  ELSE LET d == Flatten(e.designs) IN
       [s EXCEPT !.run = @ + 1, !.data = <<>>, !.todo = @ \o d, !.rem = 0, !.ret = <<>>,
                 !.inits = @ \cup Range(d), !.conv = FALSE]
Chosen(s, e) == Len(e.gens) > 0 /\ ~Restarted(e) /\ ~e.o.c
AskStep(s, e) ==
  LET s1 == AfterRestart(s, e)
      s2 == IF ~s.c.async /\ Chosen(s, e) THEN [s1 EXCEPT !.rem = s.c.b, !.ret = <<>>] ELSE s1
      init == In(e.p, s2.todo)
      back == In(e.p, s2.ret)
      it == [r |-> 0, q |-> e.q, p |-> e.p, init |-> init, run |-> s2.run]
  IN CASE e.res = "eval" ->
            [s2 EXCEPT !.pend = Append(@, it),
                       !.todo = IF init THEN Remove1(@, e.p) ELSE @,
                       !.ret  = IF ~init /\ back THEN Remove1(@, e.p) ELSE @,
                       !.rem  = IF ~init /\ ~back /\ ~s.c.async /\ @ > 0 THEN @ - 1 ELSE @]
       [] e.res = "term" -> [s2 EXCEPT !.over = TRUE]
       [] OTHER -> s2

AskClauses(s, e) ==
  LET c == s.c
      left == Left(s)
      idle == s.pend = <<>>
      ev == e.res = "eval"
      s1 == AfterRestart(s, e)
      init == In(e.p, s1.todo)
      gen == Len(e.gens) > 0
      convNow == s.conv \/ MayConverge(s, e)
      stop == convNow /\ ~c.restarts /\ (s.conv \/ e.o.c)   \* converged, restarts disabled
      due == s.conv /\ c.restarts /\ left > 0 /\ (c.async \/ idle)
      open == ~s.conv /\ left > 0              \* an ordinary request
      batch == s.rem > 0 \/ s.ret # <<>>
      allbusy == c.kind = "sop" /\ Len(Adaptive(s)) >= c.ncent
      V(cond, prop, name) == IF cond THEN {<<prop, name>>} ELSE {}
  IN
   (* budget and termination *)
      V(ev /\ left < 1, "C01", "evaluation beyond the budget")
   \cup V(e.res = "term" /\ ~idle, "C01", "terminated with evaluations in flight")
   \cup V(e.res = "term" /\ idle /\ s.done # c.M /\ ~stop, "C01", "terminated before the budget was used")
   \cup V(idle /\ e.res = "none", "C06", "no action although nothing is in flight")
   (* restarts *)
   \cup V(due /\ ~(ev /\ Len(e.designs) = 1 /\ init), "C09", "no fresh run after convergence")
   \cup V(Restarted(e) /\ ~(convNow /\ c.restarts /\ left > 0 /\ (c.async \/ idle)), "C09", "restart without convergence")
   \cup V(Len(e.designs) > 1, "C09", "more than one design in a restart")
   \cup V(\E d \in Range(e.designs) : Len(d) # c.n0, "C09", "incomplete design in a restart")
   \cup V(s.conv /\ ~c.restarts /\ ev, "C09", "proposal after convergence without restarts")
   \cup V(stop /\ idle /\ e.res # "term", "C09", "converged without restarts but not terminated")
   \cup V(s.conv /\ c.restarts /\ ~c.async /\ ~idle /\ ev, "C09", "restart before the batch was finished")
   \cup V(Restarted(e) /\ e.o.c, "C09", "still converged after the restart")
   \cup V(Restarted(e) /\ e.o.sx # <<>>, "C09", "surrogate not emptied by the restart")
   \cup V(Restarted(e) /\ e.o.rad # 0, "C09", "search radius or progress counters not reset by the restart")
   (* initial points *)
   \cup V(open /\ s.todo # <<>> /\ ~(ev /\ In(e.p, s.todo)), "C04", "waiting initial point not proposed")
   \cup V(gen /\ s.todo # <<>>, "C04", "adaptive point chosen before all initial points were proposed")
   \cup V(ev /\ ~init /\ c.cont /\ e.p \in s1.inits, "C04", "initial point proposed again")
   (* batches and asynchrony *)
   \cup V(c.async /\ open /\ s.todo = <<>> /\ ~ev /\ ~allbusy /\ ~(stop /\ gen), "C05", "asynchronous request not answered")
   \cup V(c.async /\ ev /\ ~init /\ ~gen, "C05", "no fresh adaptive point for the request")
   \cup V(~c.async /\ gen /\ (~idle \/ batch), "C05", "new points chosen before the batch was finished")
   \cup V(~c.async /\ open /\ s.todo = <<>> /\ batch /\ ~ev, "C05", "batch member held back")
   \cup V(~c.async /\ open /\ s.todo = <<>> /\ ~batch /\ ~idle /\ e.res # "none", "C05", "action while the batch is in flight")
   \cup V(~c.async /\ open /\ s.todo = <<>> /\ ~batch /\ idle /\ ~gen, "C05", "no new batch although the last one is finished")
   \cup V(~c.async /\ ev /\ ~init /\ ~gen /\ ~batch, "C05", "more points than the batch size")
   (* the model *)
   \cup V(\E g \in Range(e.gens) : \/ g.X # Map(s.data, LAMBDA d : d[1])
                                    \/ g.F # Map(s.data, LAMBDA d : d[2]),
          "C07", "surrogate data is not the data of the current run")
   \cup V(\E h \in Range(e.search) :
             \/ Len(h.X) # Len(h.F)
             \/ ~SameBag([i \in DOMAIN h.X |-> <<h.X[i], IF i \in DOMAIN h.F THEN h.F[i] ELSE 0>>], s.data),
          "C07", "candidate search does not use the data of the current run")
   \cup V(\E h \in Range(e.search) : ~SameBag(h.P, Points(s.pend)),
          "C11", "candidate search does not use the pending points")

----------------------------------------------------------------------------
(* The other events.                                                        *)
Held(s) == {k \in DOMAIN s.pend : s.pend[k].r = 0}
Holds(s, q) == \E k \in Held(s) : s.pend[k].q = q
HeldAt(s, q) == CHOOSE k \in Held(s) : s.pend[k].q = q
AcceptStep(s, e) ==
  [s EXCEPT !.pend[HeldAt(s, e.q)].r = e.r]
RejectStep(s, e) ==
  LET k == HeldAt(s, e.q)
      it == s.pend[k] IN
  [s EXCEPT !.pend = RemoveAt(@, k),
            !.todo = IF it.init THEN Append(@, it.p) ELSE @,
            !.ret  = IF ~it.init /\ ~s.c.async /\ it.run = s.run THEN Append(@, it.p) ELSE @]
DoneStep(s, e) ==
  LET it == Item(s, e.r) IN
  [s EXCEPT !.pend = Drop(s, e.r), !.done = @ + 1,
            !.X = Append(@, it.p), !.F = Append(@, e.v),
            !.fin = Append(@, <<e.r, it.p, e.v>>),
            !.data = IF it.run = s.run THEN Append(@, <<it.p, e.v>>) ELSE @]
FailStep(s, e) ==
  LET it == Item(s, e.r) IN
  [s EXCEPT !.pend = Drop(s, e.r), !.fin = Append(@, <<e.r, it.p, Unknown>>),
            !.todo = IF it.init THEN Append(@, it.p) ELSE @]
\* what a run resumed from the state t looks like
Resumed(t) ==
  [t EXCEPT !.pend = <<>>, !.crashed = TRUE, !.over = FALSE,
            !.todo = @ \o Map(SelectSeq(t.pend, LAMBDA i : i.init), LAMBDA i : i.p)]
Frozen(s) == [s EXCEPT !.snap = <<>>]
\* a checkpoint is taken when an evaluation is finished and at the end
Snapshot(s) == [s EXCEPT !.snap = <<Frozen(s)>>]

\* the two states a run can be in when the process dies while handling e
Torn(s, e) == LET old == [Resumed(s.snap[1]) EXCEPT !.snap = s.snap]
                  new == Snapshot(IF e.inner = "done" THEN DoneStep(s, e) ELSE FailStep(s, e))
              IN IF Len(e.o.L) > Len(old.fin) THEN [Resumed(new.snap[1]) EXCEPT !.snap = new.snap] ELSE old
Step(s, e) ==
  LET t == CASE e.op = "ask"    -> AskStep(s, e)
             [] e.op \in {"norun", "noresume"} -> s
             [] e.op = "accept" -> AcceptStep(s, e)
             [] e.op = "reject" -> RejectStep(s, e)
             [] e.op = "done"   -> Snapshot(DoneStep(s, e))
             [] e.op = "fail"   -> Snapshot(FailStep(s, e))
             [] e.op = "end"    -> Snapshot(s)
             [] e.op = "torn"   -> Torn(s, e)
             [] e.op = "crash"  -> [Resumed(s.snap[1]) EXCEPT !.snap = s.snap]
             [] OTHER           -> s
  IN IF e.op \in {"norun", "noresume"} THEN t ELSE [t EXCEPT !.conv = e.o.c]

\* is e possible at all in s (otherwise the recording itself is at fault)
WellFormed(s, e) ==
  CASE e.op = "ask"    -> ~s.over /\ e.res \in {"eval", "term", "none"} /\ (e.res = "eval" => ~Holds(s, e.q))
    [] e.op = "accept" -> Holds(s, e.q) /\ ~Has(s, e.r)
    [] e.op = "reject" -> Holds(s, e.q)
    [] e.op = "done"   -> Has(s, e.r) /\ e.r # 0
    [] e.op = "fail"   -> Has(s, e.r) /\ e.r # 0
    [] e.op = "crash"  -> s.snap # <<>>
    [] e.op = "torn"   -> s.snap # <<>> /\ Has(s, e.r) /\ e.r # 0
    [] e.op = "end"    -> s.over
    [] OTHER           -> TRUE

(* What the strategy shows after the event: o.n, o.k counters, o.X, o.F     *)
(* history, o.P pending points, o.L log of finished records.                *)
ObsClauses(t, e) ==
  LET o == e.o
      cr == e.op \in {"crash", "torn"}
      V(cond, prop, name) == IF cond THEN {<<prop, name>>} ELSE {}
  IN IF e.op \in {"norun", "noresume"} THEN {} ELSE
  V(o.n # t.done, IF cr THEN "C15" ELSE "C01", "number of completed evaluations")
  \cup V(o.X # t.X \/ o.F # t.F, IF cr THEN "C15" ELSE "C02", "history is not the completed evaluations")
  \cup V(o.L # t.fin, IF cr THEN "C15" ELSE "C02", "log is not the finished evaluations")
  \cup V(~SameBag(o.P, Points(t.pend)), IF cr THEN "C15" ELSE "C03", "pending points are not the evaluations in flight")
  \cup V(o.k # Len(t.pend), IF cr THEN "C15" ELSE "C03", "pending count is not the number in flight")

\* the checkpoint file, read back after the event (absent: file = <<>>)
FileClauses(t, e) ==
  LET V(cond, name) == IF cond THEN {<<"C14", name>>} ELSE {} IN
  IF e.op \in {"norun", "noresume"}
  THEN V(e.res # "ioerror", IF e.op = "norun" THEN "existing checkpoint file not refused"
                                              ELSE "resumed without a checkpoint file")
  ELSE IF e.file = "-" THEN {}
  ELSE V(e.file = "bad", "checkpoint file is not a loadable snapshot")
       \cup (IF e.file = "none" THEN V(t.snap # <<>>, "no checkpoint file although an evaluation is finished")
             ELSE IF e.file = "ok"
             THEN IF t.snap = <<>> THEN V(TRUE, "checkpoint file before anything was finished")
                  ELSE V(\/ e.fo.X # t.snap[1].X \/ e.fo.F # t.snap[1].F \/ e.fo.n # t.snap[1].done
                         \/ e.fo.L # t.snap[1].fin, "checkpoint does not hold the last finished evaluation")
             ELSE {})

Clauses(s, e) ==
  LET t == Step(s, e) IN
  (IF e.op = "ask" THEN AskClauses(s, e) ELSE {}) \cup ObsClauses(t, e) \cup FileClauses(t, e)
=============================================================================
