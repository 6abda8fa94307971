------------------------------- MODULE Pareto -------------------------------
(***************************************************************************)
(* Non-dominated sorting and the radius rule of SOP (C19).                 *)
(* pts is a sequence of points, each a sequence of objective values (ranks *)
(* of the real values, objective by objective).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Dominates(a, b) == \A m \in DOMAIN a : a[m] < b[m]
Dominated(pts, S, i) == \E j \in S : Dominates(pts[j], pts[i])
Front(pts, S) == {i \in S : ~Dominated(pts, S, i)}
Inf == 0
\* ranks: the layers, as long as fewer than nmax points have been ranked; 0 = infinity
RECURSIVE Layers(_, _, _, _, _)
Layers(pts, S, k, done, nmax) ==
  IF S = {} \/ done >= nmax THEN [i \in S |-> Inf]
  ELSE LET f == TLCEval(Front(pts, S))
           r == TLCEval(Layers(pts, S \ f, k + 1, done + Cardinality(f), nmax))
       IN TLCEval([i \in S |-> IF i \in f THEN k ELSE r[i]])
Ranks(pts, nmax) == Layers(pts, DOMAIN pts, 1, 0, nmax)

Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
FrontBad(c) ==
  LET all == DOMAIN c.pts
      f == Front(c.pts, all)
  IN (IF \A i \in all : Count(c.nd, i) + Count(c.df, i) = 1 THEN {} ELSE {"an index does not appear exactly once"})
     \cup (IF Len(c.nd) + Len(c.df) = Len(c.pts) THEN {} ELSE {"not one index per point"})
     \cup (IF \A i \in f : Count(c.nd, i) > 0 THEN {} ELSE {"a non-dominated point is among the dominated"})
     \cup (IF \A i \in all \ f : Count(c.df, i) > 0 THEN {} ELSE {"a dominated point is among the non-dominated"})
SortBad(c) == IF Len(c.ranks) # Len(c.pts) THEN {"not one rank per point"}
              ELSE LET r == Ranks(c.pts, c.nmax) IN IF \A i \in DOMAIN c.pts : c.ranks[i] = r[i] THEN {} ELSE {"wrong ranks"}

\* coordinates in 1/64 of the unit box, sigma in 1/64, thresh in quarters
RECURSIVE Sum2(_, _, _)
Sum2(a, b, i) == IF i > Len(a) THEN 0 ELSE (a[i] - b[i]) * (a[i] - b[i]) + Sum2(a, b, i + 1)
RECURSIVE Pow4(_)
Pow4(n) == IF n = 0 THEN 1 ELSE 4 * Pow4(n - 1)
Away(x, z, nfail, sigma, thresh) == 16 * Sum2(x, z, 1) * Len(x) * Pow4(nfail) >= sigma * sigma * thresh * thresh
RadiusBad(c) == IF c.flag = (\A k \in 1..c.nc : Away(c.x, c.z[k], c.nfail[k], c.sigma, c.thresh)) THEN {} ELSE {"radius rule decided wrongly"}
PairBad(c) == IF c.flag = Dominates(c.pts[1], c.pts[2]) THEN {} ELSE {"domination decided wrongly"}

ParetoBad(c) == IF c.exc # "" THEN {"exception"} ELSE
  CASE c.kind = "front" -> FrontBad(c) [] c.kind = "sort" -> SortBad(c) [] c.kind = "pair" -> PairBad(c) [] OTHER -> RadiusBad(c)
=============================================================================
