------------------------------ MODULE ConfigGen ------------------------------
(* Configurations with at most N deviations from a default one, problems with *)
(* up to two variables, and models.                                           *)
EXTENDS Config, TLC, Json
CONSTANT N
VARIABLES c, n
Init == n = 0 /\ \/ \E s \in Strategies : c = [what |-> "strategy", c |-> Default(s)]
                 \/ c = [what |-> "start", c |-> 0]
Dev(f, S) == /\ c.c[f] = Default(c.c.s)[f]
             /\ \E x \in S \ {c.c[f]} : c' = [c EXCEPT !.c = [@ EXCEPT ![f] = x]]
Deviate == /\ c.what = "strategy" /\ n < N /\ n' = n + 1
           /\ \/ Dev("budget", Budgets) \/ Dev("prob", ProblemKinds)
              \/ c.c.s # "random" /\ (Dev("design", Designs) \/ Dev("sur", Surrogates) \/ Dev("batch", Batches) \/ Dev("extras", Extras))
              \/ c.c.s \in {"srbf", "dycors"} /\ Dev("weights", Weights)
              \/ c.c.s # "random" /\ c.c.async /\ c' = [c EXCEPT !.c = [@ EXCEPT !.async = FALSE, !.batch = "two"]]
              \/ c.c.s # "random" /\ ~c.c.async /\ c.c.batch = "two" /\ \E b \in Batches : c' = [c EXCEPT !.c = [@ EXCEPT !.batch = b]]
Seqs(S, k) == UNION {[1..m -> S] : m \in 0..k}
Base(d) == [d |-> d, lb |-> [j \in 1..d |-> 0], ub |-> [j \in 1..d |-> 1], ints |-> <<>>, cont |-> [j \in 1..d |-> j - 1]]
Problem == /\ c.what = "start" /\ n' = n
           /\ \E d \in 1..2 :
              \/ \E I \in Seqs(-1..d, d + 1), C \in Seqs(-1..d, d + 1) : Len(I) + Len(C) <= d + 1 /\ c' = [what |-> "problem", c |-> [Base(d) EXCEPT !.ints = I, !.cont = C]]
              \/ \E l \in Seqs({-99, 0, 1}, d + 1), u \in Seqs({-99, 0, 1, 2}, d + 1) : c' = [what |-> "problem", c |-> [Base(d) EXCEPT !.lb = l, !.ub = u]]
              \/ \E e \in {0, -1} : c' = [what |-> "problem", c |-> [Base(d) EXCEPT !.d = e]]
Model == /\ c.what = "start" /\ n' = n
         /\ \/ \E k \in {"none", "cubic", "tps", "linear", "type"}, t \in {"none", "linear", "constant", "type"}, d \in 1..3, e \in 1..3 :
                 c' = [what |-> "model", c |-> [kind |-> "rbf", kernel |-> k, tail |-> t, d |-> d, td |-> e, gp |-> ""]]
            \/ \E g \in {"none", "gp", "type", "other"}, d \in 1..3 : c' = [what |-> "model", c |-> [kind |-> "gp", kernel |-> "", tail |-> "", d |-> d, td |-> d, gp |-> g]]
Next == Deviate \/ Problem \/ Model
Spec == Init /\ [][Next]_<<c, n>>
Emit == c.what # "start" => PrintT("CASE " \o ToJson(c))
==============================================================================
