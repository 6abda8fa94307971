-------------------------------- MODULE GAGen --------------------------------
(* All configurations of the genetic algorithm, and the abstract algorithm:  *)
(* whatever values the new points have, elitism makes the result the best    *)
(* value that was evaluated.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS D, POP, GENS, V
VARIABLES c, gen, pop, best, seen
vars == <<c, gen, pop, best, seen>>
Start == {"SLHD", "LHD", "Random", "fine", "edge", "few", "many", "narrow", "low", "high", "unknown"}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Configs == UNION {[d : {d}, int : [1..d -> BOOLEAN], pop : 1..POP, gens : 0..GENS, start : Start, f : {"slope", "flat", "steps"}] : d \in 1..D}
\* the abstract algorithm is explored for one configuration, the others are only emitted
Model(x) == x.d = 1 /\ x.start = "Random" /\ x.f = "steps" /\ x.int = [j \in {1} |-> FALSE] /\ x.pop = 2
Init == /\ c \in Configs /\ gen = 0 /\ (IF Model(c) THEN pop \in [1..2 -> 0..V] ELSE pop = <<0>>)
        /\ best = MinS({pop[i] : i \in DOMAIN pop}) /\ seen = {pop[i] : i \in DOMAIN pop}
Next == /\ Model(c) /\ gen < c.gens /\ gen' = gen + 1 /\ UNCHANGED c
        /\ \E new \in [1..2 -> 0..V] : pop' = [new EXCEPT ![1] = best]
        /\ best' = MinS({pop'[i] : i \in DOMAIN pop'}) /\ seen' = seen \cup {pop'[i] : i \in DOMAIN pop'}
Spec == Init /\ [][Next]_vars
BestOfAll == best = MinS(seen)
Emit == (gen = 0 /\ (Model(c) => pop = <<0, 0>>)) => PrintT("CASE " \o ToJson(c))
=============================================================================
