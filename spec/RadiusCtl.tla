----------------------------- MODULE RadiusCtl -----------------------------
(***************************************************************************)
(* The search radius of SRBF and DYCORS (C10).                             *)
(*   h      the radius is 0.2 / 2^h                                        *)
(*   st     consecutive successes (positive) or failures (negative) since  *)
(*          the last change                                                *)
(*   fc     consecutive failures         best  <<>> or <<best value>>      *)
(*   q      values of the current step   fresh records that count          *)
(*   conv   the search has converged                                       *)
(* Values are integers, so that "more than 0.1 % better" is exact.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == (a + b - 1) \div b
MinOf(q) == CHOOSE v \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : v <= q[i]

FailTol(c) == IF c.async THEN Mx(c.d, 4) ELSE Mx(CeilDiv(c.d, c.b), CeilDiv(4, c.b))
SuccTol == 3
HMax == 6

Fresh0 == [h |-> 0, st |-> 0, fc |-> 0, best |-> <<>>, q |-> <<>>, fresh |-> {}, conv |-> FALSE]
Improves(best, v) == best = <<>> \/ 1000 * (best[1] - v) > Abs(best[1])

Counted(r, ok) ==
  [st |-> IF ok THEN Mx(1, r.st + 1) ELSE Mn(-1, r.st - 1), fc |-> IF ok THEN 0 ELSE r.fc + 1]
StepRadius(c, r) ==
  LET v == MinOf(r.q)
      ok == Improves(r.best, v)
      n == Counted(r, ok)
      halve == n.st <= -FailTol(c)
      double == n.st >= SuccTol
      h1 == IF halve THEN r.h + 1 ELSE IF double THEN Mx(0, r.h - 1) ELSE r.h
  IN [h |-> h1, st |-> IF halve \/ double THEN 0 ELSE n.st, fc |-> n.fc,
      best |-> IF ok THEN <<v>> ELSE r.best, q |-> <<>>,
      fresh |-> IF halve \/ double THEN {} ELSE r.fresh,
      conv |-> r.conv \/ n.fc >= 4 * FailTol(c) \/ h1 >= HMax]

\* events; over: the batch is finished (synchronous)
Withdrawn(r, rec) == [r EXCEPT !.fresh = @ \ {rec}]
Started(r, rec) == [r EXCEPT !.fresh = @ \cup {rec}]
Completed(c, r, rec, v, over) ==
  LET r1 == IF rec \in r.fresh THEN [r EXCEPT !.fresh = @ \ {rec}, !.q = Append(@, v)] ELSE r
  IN IF r1.q # <<>> /\ (c.async \/ over) THEN StepRadius(c, r1) ELSE r1
Aborted(c, r, rec, over) ==
  LET r1 == [r EXCEPT !.fresh = @ \ {rec}]
  IN IF r1.q # <<>> /\ ~c.async /\ over THEN StepRadius(c, r1) ELSE r1
=============================================================================
