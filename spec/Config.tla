------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Valid configurations (C24).                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Strategies == {"srbf", "dycors", "sop", "ei", "lcb", "random"}
Budgets == {"above", "equal", "numpy", "below", "zero", "negative", "float", "nan", "none", "text", "array"}
Designs == {"good", "type", "bigger", "smaller", "none"}
Surrogates == {"good", "gp", "rbf", "type", "bigger", "smaller", "none"}
Batches == {"none", "one", "two", "four", "five", "numpy", "zero", "negative", "float", "half", "text"}
Weights == {"none", "list", "array", "ends", "single", "empty", "emptyarray", "negative", "big", "nan", "tuple", "text", "number"}
Extras == {"none", "points", "values", "unknown", "wide", "narrow", "flat", "few", "many"}
ProblemKinds == {"good", "mixed", "integers", "type", "none", "listlb", "listub", "shortlb", "longub", "equal", "swapped", "nan", "overlap", "missing", "twice", "high", "low", "floatdim"}
Default(s) == [s |-> s, budget |-> "above", design |-> "good", sur |-> "good", async |-> TRUE, batch |-> "none", weights |-> "none", extras |-> "none", prob |-> "good"]

BudgetOK(s, b) == b \in {"above", "equal", "numpy"} \/ (s = "random" /\ b = "below")
BatchOK(s, async, b) == async \/ b \in {"one", "two", "four", "numpy"} \/ (b = "five" /\ s # "sop")
WeightsOK(w) == w \in {"none", "list", "array", "ends", "single"}
ExtrasOK(x) == x \in {"none", "points", "values", "unknown"}
SurrogateOK(s, x) == x \in {"good", "gp"} \/ (x = "rbf" /\ s \notin {"ei", "lcb"})
ProblemOK(p) == p \in {"good", "mixed", "integers"}
Valid(c) == /\ ProblemOK(c.prob) /\ BudgetOK(c.s, c.budget)
            /\ c.s # "random" => c.design = "good" /\ SurrogateOK(c.s, c.sur) /\ BatchOK(c.s, c.async, c.batch) /\ ExtrasOK(c.extras)
            /\ c.s \in {"srbf", "dycors"} => WeightsOK(c.weights)

\* -- problems: bounds as sequences (nan: -99), variables as sequences of indices from 0
Less(a, b) == a # -99 /\ b # -99 /\ a < b
Range(f) == {f[k] : k \in DOMAIN f}
ProblemValid(p) ==
  LET I == Range(p.ints)  C == Range(p.cont) IN
  /\ p.d > 0 /\ Len(p.lb) = p.d /\ Len(p.ub) = p.d /\ \A j \in 1..p.d : Less(p.lb[j], p.ub[j])
  /\ I \cap C = {} /\ I \cup C = 0..(p.d - 1) /\ Cardinality(I) = Len(p.ints) /\ Cardinality(C) = Len(p.cont)

\* -- models
Order(k) == IF k = "linear" THEN 1 ELSE 2
Degree(t) == IF t = "constant" THEN 0 ELSE 1
ModelValid(m) ==
  IF m.kind = "gp" THEN m.gp \in {"none", "gp"}
  ELSE \* without a kernel or a tail both have their defaults
       m.kernel = "none" \/ m.tail = "none" \/ (m.kernel # "type" /\ m.tail # "type" /\ m.td = m.d /\ Order(m.kernel) - 1 <= Degree(m.tail))

Expected(c) == CASE c.what = "strategy" -> Valid(c.c) [] c.what = "problem" -> ProblemValid(c.c) [] c.what = "model" -> ModelValid(c.c)
ConfigBad(c) ==
  IF Expected(c) THEN (IF c.made THEN {} ELSE {"a valid configuration was refused"}) \cup (IF c.made => c.works THEN {} ELSE {"a valid configuration does not propose"})
  ELSE (IF ~c.made THEN {} ELSE {"an invalid configuration was accepted"}) \cup (IF c.asked = 0 THEN {} ELSE {"something was done before an invalid configuration was refused"})
=============================================================================
