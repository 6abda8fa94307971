------------------------------ MODULE Feasible ------------------------------
(***************************************************************************)
(* Feasibility of points (C08).  Floating-point numbers are given by their *)
(* rank among all the numbers of the case (bounds and coordinates), which  *)
(* keeps every comparison exact; a number that is not finite has rank -1.  *)
(*   c.lb, c.ub   ranks of the bounds          c.ints  integer variables   *)
(*                                          (those with integral bounds)   *)
(*   c.pts        [x |-> ranks, whole |-> is the coordinate integral]      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dim(c) == Len(c.lb)
InBox(c, x) == \A j \in 1..Dim(c) : x[j] # -1 /\ c.lb[j] <= x[j] /\ x[j] <= c.ub[j]
Integral(c, p) == \A k \in DOMAIN c.ints : p.whole[c.ints[k]]
Bad(c) ==
  UNION {IF Len(p.x) # Dim(c) THEN {"wrong number of coordinates"}
         ELSE (IF InBox(c, p.x) THEN {} ELSE {"outside the bounds"})
              \cup (IF Integral(c, p) THEN {} ELSE {"not integral in an integer variable"})
         : p \in {c.pts[i] : i \in DOMAIN c.pts}}
  \cup (IF c.exc # "" THEN {"exception"} ELSE {})
=============================================================================
