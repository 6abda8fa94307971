----------------------------- MODULE RandomRetry -----------------------------
(***************************************************************************)
(* The contract of the random strategy: a fixed bag of M points, each of   *)
(* which is proposed until it has been evaluated, and no other.  Points of *)
(* the bag may be equal (small integer domains).                           *)
(* State: bag    point -> how many of it there are                         *)
(*        wait   point -> how many of it wait to be proposed               *)
(*        fly    proposals in play [q, r, p], r = 0 while undecided        *)
(*        done   point -> how many evaluations of it have completed        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Total(_, _)
Total(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + Total(f, D \ {x})
Size(f) == Total(f, DOMAIN f)
Count(q, p) == Cardinality({k \in DOMAIN q : q[k] = p})
\* q: the points in some order
Start(q) == LET B == [p \in {q[k] : k \in DOMAIN q} |-> Count(q, p)]
            IN [bag |-> B, wait |-> B, fly |-> <<>>, done |-> [p \in DOMAIN B |-> 0], over |-> FALSE]
ByR(s, r) == CHOOSE k \in DOMAIN s.fly : s.fly[k].r = r
HasR(s, r) == r # 0 /\ \E k \in DOMAIN s.fly : s.fly[k].r = r
ByQ(s, q) == CHOOSE k \in DOMAIN s.fly : s.fly[k].q = q
HasQ(s, q) == \E k \in DOMAIN s.fly : s.fly[k].q = q /\ s.fly[k].r = 0
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Back(s, k) == [s EXCEPT !.fly = Without(@, k), !.wait[s.fly[k].p] = @ + 1]
InPlay(s, p) == Cardinality({k \in DOMAIN s.fly : s.fly[k].p = p})

Step(s, e) ==
  CASE e.op = "ask" /\ e.res = "eval" ->
         IF e.p \in DOMAIN s.wait /\ s.wait[e.p] > 0
         THEN [s EXCEPT !.fly = Append(@, [q |-> e.q, r |-> 0, p |-> e.p]), !.wait[e.p] = @ - 1]
         ELSE s
    [] e.op = "ask" /\ e.res = "term" -> [s EXCEPT !.over = TRUE]
    [] e.op = "accept" -> [s EXCEPT !.fly[ByQ(s, e.q)].r = e.r]
    [] e.op = "reject" -> Back(s, ByQ(s, e.q))
    [] e.op = "again"  -> [s EXCEPT !.over = FALSE]   \* the termination was rejected
    [] e.op = "done"   -> LET k == ByR(s, e.r) IN [s EXCEPT !.fly = Without(@, k), !.done[s.fly[k].p] = @ + 1]
    [] e.op = "fail"   -> Back(s, ByR(s, e.r))
    [] OTHER -> s

WellFormed(s, e) ==
  CASE e.op = "ask" -> ~s.over
    [] e.op \in {"accept", "reject"} -> HasQ(s, e.q)
    [] e.op = "again" -> s.over
    [] e.op \in {"done", "fail"} -> HasR(s, e.r)
    [] OTHER -> TRUE

Clauses(s, e) ==
  LET V(c, n) == IF c THEN {n} ELSE {}
      waiting == Size(s.wait) > 0
      alien == e.p \notin DOMAIN s.bag
      all == e.p \in DOMAIN s.bag /\ s.wait[e.p] = 0
  IN IF e.op # "ask" THEN {}
     ELSE V(e.res = "eval" /\ ~e.feas, "point outside the bounds or not integral")
     \cup V(e.res = "eval" /\ alien, "point not drawn before the run")
     \cup V(e.res = "eval" /\ all /\ InPlay(s, e.p) > 0, "point proposed while it is in flight")
     \cup V(e.res = "eval" /\ all /\ InPlay(s, e.p) = 0, "point evaluated twice")
     \cup V(waiting /\ e.res # "eval", "waiting point not proposed")
     \cup V(~waiting /\ s.fly # <<>> /\ e.res # "none", "action although the remaining points are in flight")
     \cup V(e.res = "term" /\ Size(s.done) # Size(s.bag), "terminated before all points were evaluated")
     \cup V(~waiting /\ s.fly = <<>> /\ e.res # "term", "not terminated although all points are evaluated")
=============================================================================
