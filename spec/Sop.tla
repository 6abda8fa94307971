-------------------------------- MODULE Sop --------------------------------
(***************************************************************************)
(* The centres and the tabu memory of the Pareto strategy (C20).           *)
(*   evs   evaluated points, in completion order:                          *)
(*         p point, v value, h the radius is 0.2 / 2^h, nf failures,       *)
(*         tb updates since the point became tabu (0: it is not)           *)
(*   ctr   centres: i number of its evaluated point, np point proposed     *)
(*         around it (0: none, the centre is free), ni number of the       *)
(*         evaluation of np (0: not evaluated yet)                         *)
(*   g     geometry: pt integer coordinates of the points (of 0..G in      *)
(*         every coordinate), M budget, n0 size of the design, nc number   *)
(*         of centres                                                      *)
(***************************************************************************)
EXTENDS Pareto
Fresh(p, v) == [p |-> p, v |-> v, h |-> 0, nf |-> 0, tb |-> 0]
Dist2(g, p, q) == Sum2(g.pt[p], g.pt[q], 1)
\* distance to the nearest other point (points at the same place do not count)
Nearest2(g, evs, i) ==
  LET D == {Dist2(g, evs[i].p, evs[j].p) : j \in DOMAIN evs} \ {0}
  IN IF D = {} THEN 1000000 ELSE CHOOSE x \in D : \A y \in D : x <= y
\* two objectives: small value, far from the others; at most 100 points are ranked
RanksOf(g, evs) == TLCEval(Ranks(TLCEval([i \in DOMAIN evs |-> <<evs[i].v, -Nearest2(g, evs, i)>>]), 100))

\* -- memory -----------------------------------------------------------------
Fail(e) == [e EXCEPT !.nf = @ + 1, !.h = @ + 1]
Age(e) == IF e.tb = 0 THEN e ELSE IF e.tb < 5 THEN [e EXCEPT !.tb = @ + 1] ELSE [e EXCEPT !.tb = 0, !.nf = 0, !.h = 0]
RECURSIVE Charge(_, _, _, _)
\* C: the finished centres (in order); a centre whose new point is not on the front is charged
Charge(evs, rank, C, k) ==
  IF k > Len(C) THEN evs
  ELSE Charge(IF rank[C[k].ni] = 1 THEN evs ELSE [evs EXCEPT ![C[k].i] = Fail(@)], rank, C, k + 1)
RECURSIVE Ban(_, _, _)
Ban(evs, C, k) == IF k > Len(C) THEN evs
                  ELSE Ban(IF evs[C[k].i].nf > 3 THEN [evs EXCEPT ![C[k].i] = [@ EXCEPT !.nf = 0, !.h = 0, !.tb = 1]] ELSE evs, C, k + 1)
Adjust(g, evs, C) ==
  LET e1 == TLCEval(Charge(evs, RanksOf(g, evs), C, 1))
  IN TLCEval(Ban(TLCEval([i \in DOMAIN e1 |-> Age(e1[i])]), C, 1))

\* -- centres ----------------------------------------------------------------
Finished(ctr) == SelectSeq(ctr, LAMBDA c : c.ni # 0)
Going(ctr) == SelectSeq(ctr, LAMBDA c : c.ni = 0)
InUse(ctr) == {c.i : c \in {Going(ctr)[k] : k \in DOMAIN Going(ctr)}}
\* order of selection: tabu status (centres in use count as tabu for two updates), rank, value
Key(evs, rank, use, i) == <<IF i \in use THEN 2 ELSE evs[i].tb, IF rank[i] = Inf THEN 1000000 ELSE rank[i], evs[i].v, i>>
RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) == k <= Len(a) /\ (a[k] < b[k] \/ (a[k] = b[k] /\ LexLess(a, b, k + 1)))
Ordered(evs, rank, use) ==
  LET key == TLCEval([i \in DOMAIN evs |-> Key(evs, rank, use, i)])
      pos(i) == Cardinality({j \in DOMAIN evs : LexLess(key[j], key[i], 1)}) + 1
      at == TLCEval([i \in DOMAIN evs |-> pos(i)])
  IN TLCEval([k \in DOMAIN evs |-> CHOOSE i \in DOMAIN evs : at[i] = k])
BestOf(evs) == CHOOSE i \in DOMAIN evs : \A j \in DOMAIN evs : evs[i].v < evs[j].v \/ (evs[i].v = evs[j].v /\ i <= j)
\* the best point comes first, tabu or not, unless it is in use
BestFirst(evs, order, use) ==
  LET b == BestOf(evs) IN
  IF b \in use THEN order ELSE <<b>> \o SelectSeq(order, LAMBDA i : i # b)

\* the radius rule: distance at least 0.2 / 2^nf * thresh / sqrt(d), thresh = (M - evaluations) / (M - n0); on the boundary either way
Ceil(a, b) == (a + b - 1) \div b
Room(g, evs) == (g.M - Len(evs)) * (g.M - Len(evs)) * g.G * g.G
Scale(g) == (g.M - g.n0) * (g.M - g.n0)
Lhs(g, evs, i, j) == 25 * Dist2(g, evs[i].p, evs[j].p) * Len(g.pt[1]) * Pow4(evs[j].nf)
Apart(g, evs, i, j) == Lhs(g, evs, i, j) >= Ceil(Room(g, evs), Scale(g))
Border(g, evs, i, j) == Room(g, evs) % Scale(g) = 0 /\ Lhs(g, evs, i, j) = Room(g, evs) \div Scale(g)

\* choices of n centres from the order: sets of sequences (more than one only on the boundary)
RECURSIVE Pick(_, _, _, _, _, _)
Pick(g, evs, order, k, chosen, n) ==
  IF Len(chosen) = n THEN {chosen}
  ELSE IF k > Len(order) THEN {[m \in 1..n |-> chosen[((m - 1) % Len(chosen)) + 1]]}  \* repeated when there are too few
  ELSE LET i == order[k]
           ok == TLCEval(\A m \in DOMAIN chosen : Apart(g, evs, i, chosen[m]))
           open == ok /\ \E m \in DOMAIN chosen : Border(g, evs, i, chosen[m])
       IN (IF ok THEN Pick(g, evs, order, k + 1, Append(chosen, i), n) ELSE {})
          \cup (IF ~ok \/ open THEN Pick(g, evs, order, k + 1, chosen, n) ELSE {})
\* the choice that agrees with the observed one wherever both are possible
RECURSIVE PickAs(_, _, _, _, _, _, _)
PickAs(g, evs, order, k, chosen, n, want) ==
  IF Len(chosen) = n THEN chosen
  ELSE IF k > Len(order) THEN [m \in 1..n |-> chosen[((m - 1) % Len(chosen)) + 1]]
  ELSE LET i == order[k]
           ok == TLCEval(\A m \in DOMAIN chosen : Apart(g, evs, i, chosen[m]))
           open == ok /\ \E m \in DOMAIN chosen : Border(g, evs, i, chosen[m])
           take == TLCEval(IF open THEN Len(want) > Len(chosen) /\ want[Len(chosen) + 1] = i ELSE ok)
       IN PickAs(g, evs, order, k + 1, TLCEval(IF take THEN Append(chosen, i) ELSE chosen), n, want)
NewCenter(i) == [i |-> i, np |-> 0, ni |-> 0]
\* the possible lists of centres when a point is to be chosen
Updated(g, evs, ctr) ==
  LET keep == Going(ctr)
      n == g.nc - Len(keep)
      use == InUse(ctr)
      order == TLCEval(BestFirst(evs, Ordered(evs, RanksOf(g, evs), use), use))
  IN IF n = 0 THEN {keep}
     ELSE {keep \o [k \in 1..n |-> NewCenter(s[k])] : s \in Pick(g, evs, order, 2, <<order[1]>>, n)}
\* the same, the one that agrees with the observed list
UpdatedAs(g, evs, ctr, seen) ==
  LET keep == Going(ctr)
      n == g.nc - Len(keep)
      use == InUse(ctr)
      order == TLCEval(BestFirst(evs, Ordered(evs, RanksOf(g, evs), use), use))
      want == [k \in 1..(IF Len(seen) > Len(keep) THEN Len(seen) - Len(keep) ELSE 0) |-> seen[Len(keep) + k].i]
      s == TLCEval(PickAs(g, evs, order, 2, <<order[1]>>, n, want))
  IN IF n = 0 THEN keep ELSE keep \o [k \in 1..n |-> NewCenter(s[k])]

\* -- events -----------------------------------------------------------------
FirstWith(ctr, Test(_)) == IF \E k \in DOMAIN ctr : Test(ctr[k]) THEN CHOOSE k \in DOMAIN ctr : Test(ctr[k]) /\ \A j \in 1..(k - 1) : ~Test(ctr[j]) ELSE 0
Owner(ctr, p) == FirstWith(ctr, LAMBDA c : c.ni = 0 /\ c.np = p)
FreeAt(ctr) == FirstWith(ctr, LAMBDA c : c.np = 0)
\* a point was withdrawn or failed: its centre is free again
Release(ctr, p) == LET k == Owner(ctr, p) IN IF k = 0 THEN ctr ELSE [ctr EXCEPT ![k] = NewCenter(ctr[k].i)]
Evaluated(ctr, p, n) == LET k == Owner(ctr, p) IN IF k = 0 THEN ctr ELSE [ctr EXCEPT ![k] = [@ EXCEPT !.ni = n]]

\* -- invariants of the memory -----------------------------------------------
MemoryOK(e) == /\ e.nf \in 0..3 /\ e.h = e.nf /\ e.tb \in 0..5 /\ (e.tb > 0 => e.nf <= 3)
CentersOK(g, evs, ctr) == Len(ctr) <= g.nc /\ \A k \in DOMAIN ctr : ctr[k].i \in DOMAIN evs
=============================================================================
