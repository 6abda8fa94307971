----------------------------- MODULE ProblemGen -----------------------------
(* The points of the lattices of the problems, up to dimension DMAX, and the *)
(* objects (problem and dimension).                                          *)
EXTENDS Problems, Json
CONSTANTS DMAX, R
VARIABLES c, st
Fixed(name) == CASE name \in {"Branin", "GoldsteinPrice", "SixHumpCamel"} -> 2 [] name = "Hartmann3" -> 3 [] name = "Hartmann6" -> 6 [] OTHER -> 0
Range(name) == CASE name = "Branin" -> {-5, -2, 0, 1, 3, 7, 10} [] name \in {"Hartmann3", "Hartmann6", "Michalewicz"} -> 0..8 [] name = "Schwefel" -> {-16, -9, -1, 0, 5, 13, 16}
                 [] name = "Rosenbrock" -> -R..R [] OTHER -> -R..R
Second(name) == IF name = "Branin" THEN {0, 1, 4, 9, 12, 15} ELSE Range(name)
Init == c = [name |-> "", u |-> <<>>] /\ st = 0
Next == \/ st = 0 /\ st' = 1 /\ \E n \in Names : c' = [name |-> n, u |-> <<>>]
        \/ st = 1 /\ LET n == c.name  k == Len(c.u) IN
                     /\ k < (IF Fixed(n) # 0 THEN Fixed(n) ELSE DMAX) /\ n # "Hartmann6"
                     /\ \E x \in (IF k = 1 THEN Second(n) ELSE Range(n)) : c' = [c EXCEPT !.u = Append(@, x)]
                     /\ st' = st
Spec == Init /\ [][Next]_<<c, st>>
Emit == (Len(c.u) > 0 /\ (Fixed(c.name) = 0 \/ Len(c.u) = Fixed(c.name))) => PrintT("CASE " \o ToJson(c))
=============================================================================
