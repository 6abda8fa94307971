---------------------------- MODULE SurrogateData ----------------------------
(***************************************************************************)
(* What a surrogate remembers (C16).  The state is the sequence of data    *)
(* (numbers of points, numbers of values) added since the last reset, and  *)
(* nothing else: additions append, a reset empties, predicting and what    *)
(* callers do with their own arrays changes nothing.                       *)
(* An event of a recorded history:                                         *)
(*   op   "add" (ids), "reset", "predict", "scribble" (the caller          *)
(*        overwrites the arrays that were passed in or handed out),        *)
(*   num, X, F  what the surrogate reports afterwards                      *)
(*   same       the arrays passed in were left as they were                *)
(*   kind, q, out, shape   a prediction: values, derivatives or deviations *)
(*        at the q-th set of queries, in millionths of the range           *)
(***************************************************************************)
EXTENDS Integers, Sequences
After(data, e) == CASE e.op = "add" -> data \o e.ids [] e.op = "reset" -> <<>> [] OTHER -> data

RECURSIVE Walk(_, _, _)
\* the data at each event (after it)
Walk(ev, k, data) == IF k > Len(ev) THEN <<>> ELSE LET d == After(data, ev[k]) IN <<d>> \o Walk(ev, k + 1, d)
DataOf(h) == Walk(h, 1, <<>>)

Abs(x) == IF x < 0 THEN -x ELSE x
EventBad(e, d, dim, nq) ==
  (IF e.exc # "" THEN {"exception"} ELSE {})
  \cup (IF e.num # Len(d) THEN {"number of points is wrong"} ELSE {})
  \cup (IF e.X # d \/ e.F # d THEN {"reported data is not what was added"} ELSE {})
  \cup (IF ~e.same THEN {"an argument was modified"} ELSE {})
  \cup (IF e.op = "predict" /\ e.exc = "" /\ e.shape # (IF e.kind = "deriv" THEN <<nq[e.q], dim>> ELSE <<nq[e.q], 1>>) THEN {"prediction has the wrong shape"} ELSE {})
HistBad(h, dim, nq) == LET D == DataOf(h) IN UNION {EventBad(h[k], D[k], dim, nq) : k \in DOMAIN h}

\* predictions are a function of the data
Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i] \/ Abs(a[i] - b[i]) <= tol
GroupBad(g) ==
  LET P == {<<h, k>> \in {<<h, k>> : h \in DOMAIN g.hist, k \in 1..g.most} :
              k <= Len(g.hist[h]) /\ g.hist[h][k].op = "predict" /\ g.hist[h][k].exc = ""}
      D == [h \in DOMAIN g.hist |-> DataOf(g.hist[h])]
      At(p) == g.hist[p[1]][p[2]]
      Differ(p, r) == At(p).kind = At(r).kind /\ At(p).q = At(r).q /\ D[p[1]][p[2]] = D[r[1]][r[2]] /\ ~Close(At(p).out, At(r).out, g.tol)
  IN UNION {HistBad(g.hist[h], g.dim, g.nq) : h \in DOMAIN g.hist}
     \cup (IF \E p, r \in P : Differ(p, r) THEN {"predictions differ for the same data"} ELSE {})
     \* and they do depend on it
     \cup (IF \E p, r \in P : At(p).kind = "value" /\ g.moves /\ At(r).kind = "value" /\ At(p).q = 1 /\ At(r).q = 1 /\ D[p[1]][p[2]] # D[r[1]][r[2]]
                              /\ At(p).out = At(r).out
           THEN {"predictions are the same although data was added"} ELSE {})
==============================================================================
