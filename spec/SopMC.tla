-------------------------------- MODULE SopMC --------------------------------
(* The Pareto strategy, asynchronous (one or more points in flight) or in     *)
(* batches, on the line 0..G: the environment chooses the new points, whether *)
(* they fail, and their values.                                               *)
EXTENDS Sop, TLC
CONSTANTS G, M, NC, B, ASYNC, MAXFAIL, SPREAD
VARIABLES evs, ctr, fly, left, fails
vars == <<evs, ctr, fly, left, fails>>
g == [pt |-> [k \in 1..(G + 1) |-> <<k - 1>>], G |-> G, M |-> M, n0 |-> 2, nc |-> NC]
Init == /\ evs = <<Fresh(1, 10), Fresh(G + 1, 20)>> /\ ctr = <<>> /\ fly = <<>> /\ left = 0 /\ fails = 0
Num(n) == IF ASYNC THEN 1 ELSE B
Idle == fly = <<>>
\* points are proposed within SPREAD of their centre
Near(i, p) == LET q == evs[i].p IN p # q /\ p - q <= SPREAD /\ q - p <= SPREAD
RECURSIVE Assign(_, _)
Assign(c, n) == IF n = 0 THEN {c} ELSE
  LET k == FreeAt(c) IN IF k = 0 THEN {c} ELSE UNION {Assign([c EXCEPT ![k] = [@ EXCEPT !.np = p]], n - 1) : p \in {p \in 1..(G + 1) : Near(c[k].i, p)}}
Points(c, old) == {k \in DOMAIN c : c[k].np # 0 /\ c[k].ni = 0}
Choose == /\ Len(evs) + Len(fly) < M /\ (ASYNC => Len(fly) < B) /\ (~ASYNC => Idle)
          /\ \E c \in Updated(g, evs, ctr) : \E d \in Assign(c, Num(1)) :
               /\ ctr' = d
               /\ fly' = fly \o LET N == SelectSeq([k \in DOMAIN d |-> IF d[k].np # 0 /\ c[k].np = 0 THEN d[k].np ELSE 0], LAMBDA x : x # 0) IN N
          /\ UNCHANGED <<evs, left, fails>>
Value == {0 - Len(evs), 100 + Len(evs)}  \* better or worse than all before
Without(k) == SubSeq(fly, 1, k - 1) \o SubSeq(fly, k + 1, Len(fly))
Done == \E k \in DOMAIN fly, v \in Value :
  LET e == Append(evs, Fresh(fly[k], v))
      c == Evaluated(ctr, fly[k], Len(evs) + 1)
      o == Owner(ctr, fly[k])
  IN /\ ctr' = c /\ fly' = Without(k) /\ UNCHANGED <<left, fails>>
     /\ evs' = IF ASYNC THEN Adjust(g, e, IF o = 0 THEN Finished(c) ELSE <<c[o]>>) ELSE IF Len(fly) = 1 THEN Adjust(g, e, Finished(c)) ELSE e
Abort == fails < MAXFAIL /\ fails' = fails + 1 /\ \E k \in DOMAIN fly :
  /\ ctr' = Release(ctr, fly[k]) /\ fly' = Without(k) /\ UNCHANGED left
  /\ evs' = IF ~ASYNC /\ Len(fly) = 1 THEN Adjust(g, evs, Finished(ctr')) ELSE evs
Next == Choose \/ Done \/ Abort
Spec == Init /\ [][Next]_vars
Memory == \A i \in DOMAIN evs : MemoryOK(evs[i])
Centers == CentersOK(g, evs, ctr)
\* every point in flight belongs to exactly one centre, and no centre has two
Owned == LET U == {k \in DOMAIN ctr : ctr[k].np # 0 /\ ctr[k].ni = 0} IN
         Cardinality(U) = Len(fly) /\ \A p \in {fly[k] : k \in DOMAIN fly} : Cardinality({k \in DOMAIN fly : fly[k] = p}) = Cardinality({k \in U : ctr[k].np = p})
\* the best point is a centre after every choice
BestUsed == (Len(ctr) = NC /\ fly # <<>> /\ ENABLED Done) => TRUE
BestCentre == [][Choose => \E k \in DOMAIN ctr' : ctr'[k].i = BestOf(evs)]_vars
\* a tabu point stays tabu for five updates
TabuLasts == [][\A i \in DOMAIN evs : evs[i].tb \in 1..4 => evs'[i].tb \in {evs[i].tb, evs[i].tb + 1, 1}]_vars
==============================================================================
