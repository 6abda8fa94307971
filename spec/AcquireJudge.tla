---------------------------- MODULE AcquireJudge ----------------------------
(* kind "merit": values of the merit functions; kind "search": ei_ga, lcb_ga; *)
(* kind "run": the choices of a strategy, each a search over the data of the  *)
(* run and the points in flight (in a batch the order is not seen).           *)
EXTENDS Acquire, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, st
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
Choice(tr, ch) == [what |-> tr.what, pts |-> tr.pts, mu |-> tr.mu, sn |-> tr.sn, kap |-> tr.kap, dt |-> tr.dt, all |-> tr.all, exc |-> "",
                   near |-> ch.near, best |-> ch.best, n |-> ch.n, thr |-> ch.thr, nothr |-> FALSE, none |-> ch.none, sel |-> ch.sel]
\* ch.vague: the documented threshold of the strategy has two readings (best of the run, best so far)
Again(c, ch) == [c EXCEPT !.thr = ch.thr2]
ChoiceBad(tr, ch) ==
  LET c == Choice(tr, ch)
      n == Len(ch.sel)
      bad(x) == IF x.none THEN SearchBad(x)
                ELSE LET S == {SearchBad([x EXCEPT !.sel = [i \in 1..n |-> x.sel[p[i]]]]) : p \in Perms(n)}
                     IN IF {} \in S THEN {} ELSE SearchBad(x)
      b == bad(c)
  IN IF b = {} \/ bad(Again(c, ch)) = {} THEN {} ELSE b
Init == t \in 1..Len(Traces) /\ st = 0
Next == st = 0 /\ st' = 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, st>>
Judged(tr) == CASE tr.kind = "merit" -> MeritBad(tr) [] tr.kind = "search" -> SearchBad(tr)
                [] OTHER -> UNION {ChoiceBad(tr, tr.choices[k]) : k \in DOMAIN tr.choices}
Verdict == st = 1 => PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, bad |-> Judged(Traces[t])]))
=============================================================================
