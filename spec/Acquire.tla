------------------------------ MODULE Acquire ------------------------------
(***************************************************************************)
(* Expected improvement and lower confidence bound (C13) on integer        *)
(* domains.  Predictions mu are integers, standard deviations are          *)
(* c.sn[i]/4 (i the point), values are integers, so that                   *)
(*    z = (best - mu) / sigma = 4 (best - mu) / sn                         *)
(* is tabulated exactly (sn divides 16), and mu - kappa sigma is exact in  *)
(* units of 1/8 (kappa = c.kap/2).  dtol = c.dt/2.                         *)
(***************************************************************************)
EXTENDS EITable, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Clip(k) == IF k > 40 THEN 40 ELSE IF k < -40 THEN -40 ELSE k
D2(x, y) == LET RECURSIVE S(_)
                S(j) == IF j = 0 THEN 0 ELSE (x[j] - y[j]) * (x[j] - y[j]) + S(j - 1)
            IN S(Len(x))
\* at least dtol away from every point of near
Apart(c, x, near) == c.dt = 0 \/ \A i \in DOMAIN near : 4 * D2(x, near[i]) >= c.dt * c.dt
K(c, i, best) == (16 * (best - c.mu[i])) \div c.sn[i]
\* beyond the table the improvement is certain, or hopeless
EI(c, i, best) == LET k == K(c, i, best) IN
  IF k > 40 THEN (best - c.mu[i]) * 1000000 ELSE IF k < -40 THEN 0 ELSE (EI6(k) * c.sn[i]) \div 4
LCB(c, i) == 8 * c.mu[i] - c.kap * c.sn[i]
MinS(S) == CHOOSE v \in S : \A w \in S : v <= w
MaxS(S) == CHOOSE v \in S : \A w \in S : v >= w

----------------------------------------------------------------------------
(* Merit values.  val[i] = [zero, inf, m, e]: the returned merit divided by *)
(* sigma (EI), or 8 times the merit (LCB, m), normalised as the table is.   *)
SameNumber(m, e, m2, e2) ==
  IF e = e2 THEN Abs(m - m2) <= 20
  ELSE IF e = e2 + 1 THEN Abs(m - 10 * m2) <= 200
  ELSE e2 = e + 1 /\ Abs(m2 - 10 * m) <= 200
MeritOK(c, i) ==
  LET v == c.val[i]  k == K(c, i, c.best) IN
  IF ~Apart(c, c.pts[i], c.near) THEN (IF c.what = "ei" THEN v.zero ELSE v.inf)
  ELSE IF c.what = "ei" THEN ~v.zero /\ ~v.inf /\ SameNumber(v.m, v.e, EIMan(k), EIExp(k))
  ELSE ~v.inf /\ v.m = LCB(c, i)
MeritBad(c) ==
  IF c.exc # "" THEN {"exception"}
  ELSE IF Len(c.val) # Len(c.pts) THEN {"one merit per point"}
  ELSE {IF ~Apart(c, c.pts[i], c.near) THEN "merit of a point that is too close" ELSE "merit value" : i \in {i \in DOMAIN c.pts : ~MeritOK(c, i)}}

----------------------------------------------------------------------------
(* A search for n points over the whole domain c.pts: the sequence sel of   *)
(* indices, or none.  c.all: the search is exhaustive (the domain is small).*)
(* c.thr is the threshold (EI: 10^-6; LCB: 1/8), c.nothr: there is none.    *)
Slack(c) == IF c.what = "ei" THEN 30 ELSE 0
Adm(c, near) == {i \in DOMAIN c.pts : Apart(c, c.pts[i], near)}
Value(c, i) == IF c.what = "ei" THEN -EI(c, i, c.best) ELSE LCB(c, i)
\* does the value v surely reach / surely miss the threshold
Reaches(c, v) == c.nothr \/ v <= c.thr + Slack(c)
Misses(c, v) == ~c.nothr /\ v > c.thr - Slack(c)
StepBad(c, near, i) ==
  LET A == Adm(c, near) IN
  IF ~Apart(c, c.pts[i], near) THEN {"returned point is too close to another one"}
  ELSE IF ~Reaches(c, Value(c, i)) THEN {"returned point does not reach the threshold"}
  ELSE IF c.all /\ \E j \in A : Value(c, j) < Value(c, i) - Slack(c) THEN {"returned point is not the best one"}
  ELSE {}
RECURSIVE SeqBad(_, _, _)
SeqBad(c, near, k) ==
  IF k > Len(c.sel) THEN {}
  ELSE StepBad(c, near, c.sel[k]) \cup SeqBad(c, Append(near, c.pts[c.sel[k]]), k + 1)
\* a search that gives up: some greedy sequence of at most n - 1 choices leads to a best point that may miss the threshold
RECURSIVE MayGiveUp(_, _, _)
MayGiveUp(c, near, n) ==
  IF n = 0 THEN FALSE
  ELSE LET A == Adm(c, near) IN
       IF A = {} THEN TRUE
       ELSE LET v == MinS({Value(c, i) : i \in A})
                B == {i \in A : Value(c, i) <= v + Slack(c)} IN
            Misses(c, v) \/ \E i \in B : MayGiveUp(c, Append(near, c.pts[i]), n - 1)
SearchBad(c) ==
  IF c.exc # "" THEN {"exception"}
  ELSE IF c.none THEN (IF c.all /\ ~MayGiveUp(c, c.near, c.n) THEN {"no point although the best one reaches the threshold"} ELSE {})
  ELSE IF Len(c.sel) # c.n THEN {"wrong number of points"}
  ELSE IF \E k \in DOMAIN c.sel : c.sel[k] \notin DOMAIN c.pts THEN {"returned point outside the domain"}
  ELSE SeqBad(c, c.near, 1)
=============================================================================
