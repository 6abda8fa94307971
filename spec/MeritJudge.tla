----------------------------- MODULE MeritJudge -----------------------------
(* Direct calls and candidate searches (kind "call"): one selection problem. *)
(* Runs of a strategy (kind "run"): a sequence of choices, each with its own *)
(* problem; the weights cycle through c.weights from one choice to the next, *)
(* over the whole run; the points of one choice are known as a set.          *)
EXTENDS Merit, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, st
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
Cycle(ws, k, n) == [i \in 1..n |-> ws[((k + i - 1) % Len(ws)) + 1]]
\* expected weights for a choice of n points after k points were chosen
ChoiceOK(tr, ch) ==
  LET n == Len(ch.sel)
      w == Cycle(tr.weights, ch.before, n)
  IN \E p \in Perms(n) : Bad([ch EXCEPT !.sel = [i \in 1..n |-> ch.sel[p[i]]], !.w = w]) = {}
RunBad(tr) == {"a choice is not the best one for the weight whose turn it is" : k \in {k \in DOMAIN tr.choices : ~ChoiceOK(tr, tr.choices[k])}}
First(tr) == LET S == {k \in DOMAIN tr.choices : ~ChoiceOK(tr, tr.choices[k])} IN
             IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
Init == t \in 1..Len(Traces) /\ st = 0
Next == st = 0 /\ st' = 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, st>>
Verdict == st = 1 => LET tr == Traces[t] IN
  PrintT("VERDICT " \o ToJson([id |-> tr.id, bad |-> IF tr.kind = "call" THEN Bad(tr) ELSE RunBad(tr),
                               at |-> IF tr.kind = "call" THEN 0 ELSE First(tr)]))
=============================================================================
