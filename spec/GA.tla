--------------------------------- MODULE GA ---------------------------------
(***************************************************************************)
(* The genetic algorithm (C21): populations are evaluated one after the    *)
(* other; each contains the best evaluated value so far (elitism).         *)
(* A recorded run:                                                         *)
(*   lb, ub, ints   as in Feasible                                         *)
(*   size           the configured population size                         *)
(*   gens           the configured number of generations                   *)
(*   calls          the evaluated populations, each [pts, val] (pts as in  *)
(*                  Feasible, val integers)                                *)
(*   start          "own" (population given by the user: own, with fits =  *)
(*                  right size, inside = within the bounds; all numbers),  *)
(*                  "unknown" (no such method), otherwise a method         *)
(*   sure           the method certainly finds an initial population       *)
(*   res, resval    the returned point and value                           *)
(* The state machine: best[k] is the best value after k populations.       *)
(***************************************************************************)
EXTENDS Feasible
Even(n) == n + (n % 2)
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MinCall(call) == MinS({call.val[i] : i \in DOMAIN call.val})
RECURSIVE Best(_, _)
Best(calls, k) == IF k = 1 THEN MinCall(calls[1]) ELSE LET b == Best(calls, k - 1)  m == MinCall(calls[k]) IN IF m < b THEN m ELSE b

PopBad(c, call) == Bad([c EXCEPT !.pts = call.pts, !.exc = ""])
Refused(c) == c.start = "unknown" \/ (c.start = "own" /\ ~(c.fits /\ c.inside))
GABad(c) ==
  IF Refused(c) THEN IF c.exc = "" THEN {"an unsuitable initial population was accepted"} ELSE IF c.calls # <<>> THEN {"evaluated an unsuitable initial population"} ELSE {}
  ELSE IF c.exc # "" THEN (IF c.sure THEN {"exception"} ELSE {})
  ELSE UNION {PopBad(c, c.calls[k]) : k \in DOMAIN c.calls}
       \cup (IF Len(c.calls) # c.gens + 1 THEN {"wrong number of populations"} ELSE {})
       \cup (IF \E k \in DOMAIN c.calls : Len(c.calls[k].pts) # Even(c.size) THEN {"a population has the wrong size"} ELSE {})
       \cup (IF c.calls = <<>> THEN {} ELSE
              (IF \E k \in 2..Len(c.calls) : MinCall(c.calls[k]) > Best(c.calls, k - 1) THEN {"a population lacks the best point so far"} ELSE {})
              \cup (IF \E k \in DOMAIN c.calls : \E i \in DOMAIN c.calls[k].pts : c.calls[k].pts[i].x = c.res /\ c.calls[k].val[i] = c.resval
                    THEN {} ELSE {"the result is not an evaluated point with its value"})
              \cup (IF c.resval > Best(c.calls, Len(c.calls)) THEN {"a smaller value was evaluated"} ELSE {})
              \cup (IF c.start = "own" /\ [i \in DOMAIN c.calls[1].pts |-> c.calls[1].pts[i].x] # c.own THEN {"the initial population given was not used"} ELSE {}))
       \cup (IF c.intact THEN {} ELSE {"an argument was modified"})
=============================================================================
