-------------------------- MODULE SurrogateOptGen --------------------------
(***************************************************************************)
(* Schedules of the environment for replay on the real strategies.         *)
(* The strategy is played by Reply, one deterministic strategy that meets  *)
(* the contract (invariant Conforms); the environment is free.  hist is    *)
(* the schedule so far and no part of the view, so that TLC visits every   *)
(* abstract state once, and prints one schedule for every transition of    *)
(* the abstract state graph.                                               *)
(*   "a" ask and accept   "x" ask and reject   "d",k complete the k-th     *)
(*   "f",k fail the k-th  "c" converge         "k" crash and resume        *)
(*   "t",k die while handling the completion of the k-th                   *)
(*   "h" ask, decide later   "A",k accept, "R",k reject the k-th undecided *)
(***************************************************************************)
EXTENDS SurrogateOpt, TLC, Json

CONSTANTS M, N0, ASYNC, B, RESTARTS, NKNOWN, NASKED, WORKERS,
          MAXFAIL, MAXREJ, MAXCONV, MAXCRASH, MAXTORN, HOLD   \* HOLD: at most so many undecided proposals

VARIABLES s, nf, nx, nc, nk, nt, rid, asked, ok, hist
vars == <<s, nf, nx, nc, nk, nt, rid, asked, ok, hist>>

Cfg == [M |-> M, n0 |-> N0, async |-> ASYNC, b |-> B, restarts |-> RESTARTS, cont |-> TRUE,
        kind |-> "srbf", ncent |-> 2,
        extras |-> [i \in 1..(NKNOWN + NASKED) |-> [p |-> 900 + i, v |-> IF i <= NKNOWN THEN 5 ELSE Unknown]]]
Design(k) == [i \in 1..N0 |-> 10 * k + i]
AdaptiveId == 7
FreeQ == CHOOSE q \in 0..HOLD : ~Holds(s, q) /\ \A k \in 0..(q - 1) : Holds(s, k)
\* the number of item k among the undecided ones, or among those in flight (from 0)
Num(k) == Cardinality({j \in 1..(k - 1) : (s.pend[j].r = 0) = (s.pend[k].r = 0)})

Obs(t, conv) == [n |-> t.done, k |-> Len(t.pend), X |-> t.X, F |-> t.F, P |-> Points(t.pend),
                 L |-> t.fin, c |-> conv, sx |-> <<>>, rad |-> 0]
Seen(e0, conv) ==
  LET part == [e0 EXCEPT !.o = [c |-> conv, sx |-> <<>>, rad |-> 0, L |-> <<>>]]
  IN [e0 EXCEPT !.o = Obs(Step(s, part), conv)]
Last(q) == q[Len(q)]

Reply ==
  LET E(r, p, ds, gs, cc) == Seen([op |-> "ask", q |-> FreeQ, res |-> r, p |-> p, designs |-> ds, gens |-> gs,
                                   search |-> <<>>, o |-> 0, file |-> "-"], cc)
      seen == <<[X |-> Map(s.data, LAMBDA d : d[1]), F |-> Map(s.data, LAMBDA d : d[2])]>>
      idle == s.pend = <<>>
      new == Design(s.run + 1)
  IN IF s.done = M THEN (IF idle THEN E("term", 0, <<>>, <<>>, s.conv) ELSE E("none", 0, <<>>, <<>>, s.conv))
     ELSE IF Left(s) < 1 THEN E("none", 0, <<>>, <<>>, s.conv)
     ELSE IF s.conv THEN (IF ~RESTARTS THEN (IF idle THEN E("term", 0, <<>>, <<>>, TRUE) ELSE E("none", 0, <<>>, <<>>, TRUE))
                          ELSE IF ASYNC \/ idle THEN E("eval", Last(new), <<new>>, <<>>, FALSE)
                          ELSE E("none", 0, <<>>, <<>>, TRUE))
     ELSE IF s.todo # <<>> THEN E("eval", Last(s.todo), <<>>, <<>>, FALSE)
     ELSE IF ASYNC THEN E("eval", AdaptiveId, <<>>, seen, FALSE)
     ELSE IF s.rem > 0 \/ s.ret # <<>> THEN E("eval", AdaptiveId, <<>>, <<>>, FALSE)
     ELSE IF idle THEN E("eval", AdaptiveId, <<>>, seen, FALSE)
     ELSE E("none", 0, <<>>, <<>>, FALSE)

Do(e) == /\ s' = Step(s, e) /\ ok' = (ok /\ WellFormed(s, e) /\ Clauses(s, e) = {})
\* asking and the decision are one step of the schedule (asked: the decision is due)
Ask(op) == /\ ~s.over /\ asked = ""
           \* asking again gains nothing if there was no action
           /\ (hist # <<>> /\ Last(hist) \in {<<"a">>, <<"x">>, <<"h">>}) => Reply.res # "none"
           /\ Do(Reply)
           /\ asked' = IF Reply.res = "eval" /\ op # "h" THEN op ELSE ""
           /\ op = "h" => Reply.res = "eval" /\ Cardinality(Held(s)) < HOLD /\ Len(s.pend) < WORKERS
           /\ op = "x" => Reply.res = "eval" /\ nx < MAXREJ
           /\ hist' = Append(hist, <<op>>)
           /\ nx' = IF op = "x" THEN nx + 1 ELSE nx
           /\ UNCHANGED <<nf, nc, nk, nt, rid>>
Decide == /\ asked # ""
          /\ IF asked = "a" /\ Len(s.pend) <= WORKERS
             THEN Do(Seen([op |-> "accept", q |-> Last(s.pend).q, r |-> rid, o |-> 0, file |-> "-"], s.conv)) /\ rid' = rid + 1
             ELSE Do(Seen([op |-> "reject", q |-> Last(s.pend).q, o |-> 0, file |-> "-"], s.conv)) /\ rid' = rid
          /\ asked' = ""
          /\ UNCHANGED <<nf, nx, nc, nk, nt, hist>>
Later == /\ asked = "" /\ ~s.over
         /\ \E k \in Held(s) :
              \/ /\ Do(Seen([op |-> "accept", q |-> s.pend[k].q, r |-> rid, o |-> 0, file |-> "-"], s.conv))
                 /\ rid' = rid + 1 /\ nx' = nx /\ hist' = Append(hist, <<"A", Num(k)>>)
              \/ /\ nx < MAXREJ
                 /\ Do(Seen([op |-> "reject", q |-> s.pend[k].q, o |-> 0, file |-> "-"], s.conv))
                 /\ rid' = rid /\ nx' = nx + 1 /\ hist' = Append(hist, <<"R", Num(k)>>)
         /\ UNCHANGED <<nf, nc, nk, nt, asked>>
Done == /\ asked = "" /\ ~s.over
        /\ \E k \in DOMAIN s.pend \ Held(s) :
             /\ Do(Seen([op |-> "done", r |-> s.pend[k].r, v |-> 3, o |-> 0, file |-> "-"], s.conv))
             /\ hist' = Append(hist, <<"d", Num(k)>>)
        /\ UNCHANGED <<nf, nx, nc, nk, nt, rid, asked>>
Fail == /\ asked = "" /\ nf < MAXFAIL /\ ~s.over
        /\ \E k \in DOMAIN s.pend \ Held(s) :
             /\ Do(Seen([op |-> "fail", r |-> s.pend[k].r, o |-> 0, file |-> "-"], s.conv))
             /\ hist' = Append(hist, <<"f", Num(k)>>)
        /\ nf' = nf + 1
        /\ UNCHANGED <<nx, nc, nk, nt, rid, asked>>
Converge == /\ asked = "" /\ nc < MAXCONV /\ ~s.conv /\ ~s.over
            /\ In(AdaptiveId, Map(s.data, LAMBDA d : d[1]))
            /\ ASYNC \/ (s.pend = <<>> /\ s.rem = 0 /\ s.ret = <<>> /\ s.todo = <<>>)
            /\ Do(Seen([op |-> "conv", o |-> 0, file |-> "-"], TRUE))
            /\ hist' = Append(hist, <<"c">>) /\ nc' = nc + 1
            /\ UNCHANGED <<nf, nx, nk, nt, rid, asked>>
Crash == /\ asked = "" /\ s.snap # <<>> /\ nk < MAXCRASH /\ ~s.over
         /\ Do(Seen([op |-> "crash", o |-> 0, file |-> "-"], s.snap[1].conv))
         /\ hist' = Append(hist, <<"k">>) /\ nk' = nk + 1
         /\ UNCHANGED <<nf, nx, nc, nt, rid, asked>>
\* seen from the schedule, dying while a completion is handled may lose it or not
Torn1 == /\ asked = "" /\ s.snap # <<>> /\ nt < MAXTORN /\ ~s.over
         /\ \E k \in DOMAIN s.pend \ Held(s) :
              /\ Do(Seen([op |-> "crash", o |-> 0, file |-> "-"], s.snap[1].conv))
              /\ hist' = Append(hist, <<"t", Num(k)>>)
         /\ nt' = nt + 1
         /\ UNCHANGED <<nf, nx, nc, nk, rid, asked>>

Init == /\ s = Start(Cfg, Design(1)) /\ ok = TRUE
        /\ nf = 0 /\ nx = 0 /\ nc = 0 /\ nk = 0 /\ nt = 0 /\ rid = 1 /\ asked = "" /\ hist = <<>>
Next == Ask("a") \/ Ask("x") \/ Ask("h") \/ Decide \/ Later \/ Done \/ Fail \/ Converge \/ Crash \/ Torn1
Spec == Init /\ [][Next]_vars

Conforms == ok
\* the order of the history is not part of what a strategy decides by
Abstract(t) == <<t.done, Map(t.pend, LAMBDA i : <<i.p, i.init, i.run = t.run, i.r = 0>>), t.todo, t.rem, t.ret,
                 Len(t.data), t.run, t.conv, t.over>>
View == <<Abstract(s), IF s.snap = <<>> \/ MAXCRASH + MAXTORN = 0 THEN <<>> ELSE <<Abstract(s.snap[1])>>,
          nf, nx, nc, nk, nt, asked>>
\* one line for every transition
Emit == asked' = "" => PrintT("SCHED " \o ToJson(hist'))
=============================================================================
