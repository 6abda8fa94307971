----------------------------- MODULE RadiusGen -----------------------------
(***************************************************************************)
(* Histories of steps for replay, one per transition of the abstract state *)
(* graph of RadiusCtl; W evaluations in flight at most (asynchronous), or  *)
(* batches of which each finishes as one step (synchronous, W = 1).        *)
(*   "A"   start an evaluation (a batch)                                   *)
(*   "S",k / "F",k  the k-th in flight completes with a success / failure  *)
(*   "X",k the k-th in flight fails   "R"  a converged search is restarted *)
(***************************************************************************)
EXTENDS RadiusCtl, TLC, Json
CONSTANTS ASYNC, D, B, W, MAXRUNS, MAXABORT
VARIABLES r, fly, next, runs, na, hist
vars == <<r, fly, next, runs, na, hist>>
Cfg == [async |-> ASYNC, d |-> D, b |-> B]
RemoveK(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Val(ok) == IF ok THEN (IF r.best = <<>> THEN 0 ELSE -5) ELSE 0
Norm(x) == [x EXCEPT !.best = IF @ = <<>> THEN <<>> ELSE <<0>>]  \* values are relative

Init == r = Fresh0 /\ fly = <<>> /\ next = 1 /\ runs = 1 /\ na = 0 /\ hist = <<>>
Start == /\ Len(fly) < W /\ ~r.conv
         /\ r' = Started(r, next) /\ fly' = Append(fly, next)
         /\ next' = next + 1 /\ hist' = Append(hist, <<"A">>) /\ UNCHANGED <<runs, na>>
Finish == \E k \in DOMAIN fly, ok \in BOOLEAN :
            /\ r.best # <<>> \/ ok
            /\ r' = Norm(Completed(Cfg, r, fly[k], Val(ok), TRUE))
            /\ fly' = RemoveK(fly, k)
            /\ hist' = Append(hist, <<IF ok THEN "S" ELSE "F", k - 1>>) /\ UNCHANGED <<next, runs, na>>
Abort == \E k \in DOMAIN fly :
            /\ na < MAXABORT /\ na' = na + 1
            /\ r' = Aborted(Cfg, r, fly[k], TRUE) /\ fly' = RemoveK(fly, k)
            /\ hist' = Append(hist, <<"X", k - 1>>) /\ UNCHANGED <<next, runs>>
Restart == /\ r.conv /\ runs < MAXRUNS /\ (ASYNC \/ fly = <<>>)
           /\ r' = Fresh0 /\ runs' = runs + 1 /\ hist' = Append(hist, <<"R">>) /\ UNCHANGED <<fly, next, na>>
Next == Start \/ Finish \/ Abort \/ Restart
Spec == Init /\ [][Next]_vars

View == <<r.h, r.st, r.fc, r.best, r.conv, [k \in DOMAIN fly |-> fly[k] \in r.fresh], runs, na>>
\* the radius stays in range; converging means what it says
Sane == /\ r.h \in 0..HMax /\ r.st \in (1 - FailTol(Cfg))..(SuccTol - 1)
        /\ r.fc >= 0 /\ (r.st < 0 => r.fc >= -r.st) /\ (r.st > 0 => r.fc = 0)
        /\ r.fresh \subseteq {fly[k] : k \in DOMAIN fly}
        /\ (r.h = HMax => r.conv) /\ (r.fc >= 4 * FailTol(Cfg) => r.conv)
Emit == PrintT("SCHED " \o ToJson(hist'))
=============================================================================
