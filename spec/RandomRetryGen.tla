--------------------------- MODULE RandomRetryGen ---------------------------
(* Every environment of the random strategy, for small constants: checks the *)
(* contract and prints one schedule per transition.  M points, TWINS of *)
(* them equal to the first one;                                              *)
(* a proposal may be decided at once or later (at most HOLD of them).        *)
EXTENDS RandomRetry, TLC, Json
CONSTANTS M, TWINS, WORKERS, MAXREJ, MAXFAIL, HOLD, HIST   \* HIST: record the schedule
VARIABLES s, nx, nf, ok, hist
vars == <<s, nx, nf, ok, hist>>
Log(h, x) == IF HIST THEN Append(h, x) ELSE h
\* numbers of proposals and evaluations: the smallest that is not in play
nq == CHOOSE q \in 1..(Len(s.fly) + 1) : (\A k \in DOMAIN s.fly : s.fly[k].q # q) /\ \A x \in 1..(q - 1) : \E k \in DOMAIN s.fly : s.fly[k].q = x
rid == CHOOSE q \in 1..(Len(s.fly) + 1) : (\A k \in DOMAIN s.fly : s.fly[k].r # q) /\ \A x \in 1..(q - 1) : \E k \in DOMAIN s.fly : s.fly[k].r = x
Bag == [k \in 1..M |-> IF k <= TWINS + 1 THEN 1 ELSE k]
Waits == {p \in DOMAIN s.wait : s.wait[p] > 0}
Answer == IF Waits # {} THEN [op |-> "ask", res |-> "eval", q |-> nq, p |-> CHOOSE p \in Waits : \A x \in Waits : p <= x, feas |-> TRUE]
          ELSE [op |-> "ask", res |-> IF s.fly = <<>> THEN "term" ELSE "none", q |-> 0, p |-> 0, feas |-> TRUE]
Held == SelectSeq(s.fly, LAMBDA f : f.r = 0)
Going == SelectSeq(s.fly, LAMBDA f : f.r # 0)
Good(st, e) == WellFormed(st, e) /\ Clauses(st, e) = {}
Take(e) == s' = Step(s, e) /\ ok' = (ok /\ Good(s, e))
Free == Len(Going) < WORKERS
\* ask, and decide at once ("a" accepts, "x" rejects) or later ("h")
Both(e, f) == LET s1 == Step(s, e) IN s' = Step(s1, f) /\ ok' = (ok /\ Good(s, e) /\ Good(s1, f))
Ask == /\ ~s.over
       /\ (hist # <<>> /\ hist[Len(hist)] = <<"a">>) => Answer.res # "none"
       /\ \/ /\ Answer.res = "eval"
             /\ \/ Free /\ Both(Answer, [op |-> "accept", q |-> nq, r |-> rid]) /\ nx' = nx /\ hist' = Log(hist, <<"a">>)
                \/ ~Free /\ HOLD = 0 /\ Both(Answer, [op |-> "reject", q |-> nq]) /\ nx' = nx /\ hist' = Log(hist, <<"a">>)
                \/ nx < MAXREJ /\ Both(Answer, [op |-> "reject", q |-> nq]) /\ nx' = nx + 1 /\ hist' = Log(hist, <<"x">>)
                \/ Len(Held) < HOLD /\ Take(Answer) /\ nx' = nx /\ hist' = Log(hist, <<"h">>)
          \/ /\ Answer.res # "eval" /\ Take(Answer) /\ nx' = nx /\ hist' = Log(hist, <<"a">>)
          \/ /\ Answer.res = "term" /\ nx < MAXREJ /\ nx' = nx + 1 /\ Both(Answer, [op |-> "again"]) /\ hist' = Log(hist, <<"x">>)
       /\ UNCHANGED nf
Accept == /\ ~s.over /\ Free
          /\ \E k \in DOMAIN Held : Take([op |-> "accept", q |-> Held[k].q, r |-> rid]) /\ hist' = Log(hist, <<"A", k - 1>>)
          /\ UNCHANGED <<nx, nf>>
Reject == /\ ~s.over /\ nx < MAXREJ /\ nx' = nx + 1
          /\ \E k \in DOMAIN Held : Take([op |-> "reject", q |-> Held[k].q]) /\ hist' = Log(hist, <<"R", k - 1>>)
          /\ nf' = nf
Done == /\ ~s.over /\ \E k \in DOMAIN Going : Take([op |-> "done", r |-> Going[k].r]) /\ hist' = Log(hist, <<"d", k - 1>>)
        /\ UNCHANGED <<nx, nf>>
Fail == /\ ~s.over /\ nf < MAXFAIL /\ nf' = nf + 1
        /\ \E k \in DOMAIN Going : Take([op |-> "fail", r |-> Going[k].r]) /\ hist' = Log(hist, <<"f", k - 1>>)
        /\ nx' = nx
Init == s = Start(Bag) /\ nx = 0 /\ nf = 0 /\ ok = TRUE /\ hist = <<>>
Next == Ask \/ Accept \/ Reject \/ Done \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask) /\ SF_vars(Accept) /\ SF_vars(Done)
Conforms == ok
Conserved == Size(s.wait) + Len(s.fly) + Size(s.done) = M /\ \A p \in DOMAIN s.bag : s.wait[p] + InPlay(s, p) + s.done[p] = s.bag[p]
Ends == s.over => Size(s.done) = M
Terminates == <>[]s.over
View == <<s.wait, [k \in DOMAIN s.fly |-> <<s.fly[k].p, s.fly[k].r = 0>>], s.done, s.over, nx, nf>>
Emit == PrintT("SCHED " \o ToJson(hist'))
=============================================================================
