----------------------------- MODULE Candidates -----------------------------
(***************************************************************************)
(* Candidate points (C12).  A generator was asked for want candidates and  *)
(* delivered n of them; seen coordinate by coordinate:                     *)
(*   same[j]   candidates that agree with the centre in coordinate j       *)
(*   rms[j]    root mean square deviation (of all candidates if all are    *)
(*             perturbed in j, of those that differ otherwise), in 1/1000  *)
(*             of the unit in which the range of coordinate j is range[j]  *)
(*   low[j], high[j]  smallest and largest value, in 1/1000 of the range   *)
(*   none      candidates that agree with the centre everywhere            *)
(*   multi     candidates that differ in at least two coordinates          *)
(* The search radius is 0.2 / 2^h; p is the perturbation probability in    *)
(* 1/1000 (gen = "dycors").                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dim(c) == Len(c.same)
Sub(c) == {c.subset[i] : i \in DOMAIN c.subset}
Cont(c) == {j \in 1..Dim(c) : ~c.int[j]}
Chosen(c, j) == c.n - c.same[j]
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* the scale of the perturbations in 1/1000 of the unit; at least one unit for integers
Scale(c, j) == LET s == (200 * c.range[j]) \div Pow2(c.h) IN IF c.int[j] /\ s < 1000 THEN 1000 ELSE s
\* enough perturbed candidates and enough room for the statistics to be sharp
Every(c) == c.gen = "srbf" \/ (c.gen = "dycors" /\ c.p >= 1000) \/ Cardinality(Sub(c)) = 1
Sharp(c, j) == (IF Every(c) THEN c.n ELSE Chosen(c, j)) >= 1500 /\ Scale(c, j) * 4 <= 1000 * c.range[j]
RMSok(c, j) ==
  LET s == Scale(c, j) \* rounding of integers adds to the deviation, and hides small ones
  IN IF c.int[j] THEN c.rms[j] * 100 >= 75 * s /\ c.rms[j] * 100 <= (IF Every(c) THEN 120 ELSE 150) * s
     ELSE c.rms[j] * 100 >= 78 * s /\ c.rms[j] * 100 <= 110 * s

\* 1000 (1 - p)^m, at least
RECURSIVE QPow(_, _)
QPow(p, m) == IF m = 0 THEN 1000 ELSE ((1000 - p) * QPow(p, m - 1)) \div 1000 + 1
\* a coordinate is chosen with probability p, or because no other one was
FreqOK(c, j, m) ==
  LET f == (1000 * Chosen(c, j)) \div c.n
      slack == 60
  IN f >= c.p - slack /\ f <= c.p + QPow(c.p, m) + slack

V(cond, name) == IF cond THEN {name} ELSE {}
Structure(c) ==
  LET m == Cardinality(Sub(c)) IN
  V(c.n # c.want, "wrong number of candidates")
  \cup V(\E j \in (1..Dim(c)) \ Sub(c) : c.same[j] # c.n, "coordinate outside the subset perturbed")
  \cup V(c.gen \in {"srbf", "uniform"} /\ \E j \in Sub(c) \cap Cont(c) : c.same[j] # 0, "coordinate of the subset not perturbed")
  \cup V(c.gen = "dycors" /\ Sub(c) \subseteq Cont(c) /\ Sub(c) # {} /\ c.none # 0, "candidate without a perturbed coordinate")
  \cup V(c.gen = "dycors" /\ (c.p >= 1000 \/ m = 1) /\ \E j \in Sub(c) \cap Cont(c) : c.same[j] # 0, "not all coordinates perturbed with probability one")
  \cup V(c.gen = "dycors" /\ c.n >= 60 * m /\ \E j \in Sub(c) : Chosen(c, j) = 0, "coordinate never perturbed")
  \cup V(c.gen = "dycors" /\ c.n >= 1500 /\ m > 1 /\ c.p >= 0 /\ \E j \in Sub(c) \cap Cont(c) : ~FreqOK(c, j, m), "frequency of perturbations")
Size(c) ==
  V(c.gen # "uniform" /\ c.sized /\ \E j \in Sub(c) : Sharp(c, j) /\ ~RMSok(c, j), "size of the perturbations")
  \cup V(c.gen = "uniform" /\ c.n >= 400 /\ \E j \in Sub(c) : c.low[j] > 40 + (1000 \div c.range[j]) * (IF c.int[j] THEN 1 ELSE 0)
                                                        \/ c.high[j] < 960 - (1000 \div c.range[j]) * (IF c.int[j] THEN 1 ELSE 0),
         "uniform candidates do not fill the box")
Bad(c) == IF c.exc # "" THEN {"exception"} ELSE Structure(c) \cup Size(c)

----------------------------------------------------------------------------
(* The perturbation probability over a run: est[k], multi[k] the observed   *)
(* frequency of perturbed coordinates and of candidates with at least two   *)
(* (1/1000), when the k-th point is chosen.                                 *)
Start(d) == IF d <= 20 THEN 1000 ELSE 20000 \div d
\* floor: 1000 P(at least two of d) for probability 1/d is at least 264 for d >= 2
ProbBad(c) ==
  V(c.plain /\ Len(c.est) > 0 /\ (c.est[1] > Start(c.d) + c.tol \/ c.est[1] < Start(c.d) - c.tol), "perturbation probability does not start at min(20/d,1)")
  \cup V(\E k \in 2..Len(c.est) : c.est[k] > c.est[k - 1] + 2 * c.tol, "perturbation probability increases")
  \cup V(\E k \in DOMAIN c.est : c.est[k] < 1000 \div c.d - c.tol, "perturbation probability below 1/d")
  \cup V(c.d > 2 /\ \E k \in DOMAIN c.multi : c.multi[k] < 264 - 3 * c.tol, "perturbation probability below 1/d")
=============================================================================
