------------------------------ MODULE FiguresTrace ------------------------------
(* "history" pop, epoch, rows [lgm, t, x, mean, std, keys: Seq of [m, s] (predictions *)
(*           of the bin with several random keys), m, s (their average), tm, ts        *)
(*           (allowance for sampling)], solid, dashed, dotted: Seq of [x, y],          *)
(*           bands: Seq of [x, lo, hi]                                                 *)
(* "panel"   pop, t (as titled), rows, curves: Seq of [x, y, c]                        *)
(* "saved"   name, own (no other figure has it), there (in the requested folder),      *)
(*           elsewhere (files outside it), kept (inputs unchanged)                     *)
EXTENDS Figures, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Close(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Near(a[i], b[i], tol)
CloseS(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Near(a[i], b[i], tol[i])
Plus(a, b, s) == [ i \in 1..Len(a) |-> a[i] + s * b[i] ]
\* every label has its curve, every curve its label, one curve per label
Matched(curves, n, Fits(_, _)) ==
  /\ Len(curves) = n
  /\ \A k \in 1..n : \E c \in 1..n : Fits(curves[c], k)
  /\ \A c \in 1..n : \E k \in 1..n : Fits(curves[c], k)
T == 30
\* twice the curves: a lower and an upper one per label
Twice(curves, n, Lo(_, _), Hi(_, _)) ==
  /\ Len(curves) = 2 * n
  /\ \A k \in 1..n : (\E c \in 1..2 * n : Lo(curves[c], k)) /\ (\E c \in 1..2 * n : Hi(curves[c], k))
  /\ \A c \in 1..2 * n : \E k \in 1..n : Lo(curves[c], k) \/ Hi(curves[c], k)
History(e) ==
  LET S == Shown(e.rows, e.pop, e.epoch)
      R == e.rows
      K == 1..Len(R[1].keys)
      Solid(c, k) == \E i \in S[k] : Close(c.x, R[i].x, T) /\ Close(c.y, R[i].mean, T)
      Band(c, k) == \E i \in S[k] : /\ Close(c.x, R[i].x, T) /\ Close(c.lo, Plus(R[i].mean, R[i].std, -1), T)
                                   /\ Close(c.hi, Plus(R[i].mean, R[i].std, 1), T)
      \* the model under one random key for all curves ...
      One(q) == /\ Matched(e.dashed, 3, LAMBDA c, k : \E i \in S[k] : Close(c.x, R[i].x, T) /\ Close(c.y, R[i].keys[q].m, 500))
                /\ Twice(e.dotted, 3, LAMBDA c, k : \E i \in S[k] : Close(c.x, R[i].x, T) /\ Close(c.y, Plus(R[i].keys[q].m, R[i].keys[q].s, -1), 500),
                                      LAMBDA c, k : \E i \in S[k] : Close(c.x, R[i].x, T) /\ Close(c.y, Plus(R[i].keys[q].m, R[i].keys[q].s, 1), 500))
      \* ... or under any, within what sampling allows
      AnyMean == Matched(e.dashed, 3, LAMBDA c, k : \E i \in S[k] : Close(c.x, R[i].x, T) /\ CloseS(c.y, R[i].m, R[i].tm))
      AnyScatter == Twice(e.dotted, 3, LAMBDA c, k : \E i \in S[k] : Close(c.x, R[i].x, T) /\ CloseS(c.y, Plus(R[i].m, R[i].s, -1), R[i].ts),
                                       LAMBDA c, k : \E i \in S[k] : Close(c.x, R[i].x, T) /\ CloseS(c.y, Plus(R[i].m, R[i].s, 1), R[i].ts))
      ok == \E q \in K : One(q)
  IN  CLAUSE("target-curves", Matched(e.solid, 3, Solid))
      \cup CLAUSE("target-bands", Matched(e.bands, 3, Band))
      \cup CLAUSE("model-curves", ok \/ AnyMean)
      \cup CLAUSE("model-scatter", ok \/ AnyScatter)
Panel(e) ==
  LET S == ShownInPanel(e.rows, e.pop, e.t)
      R == e.rows
      Diff(a, b) == Plus(a, b, -1)
      Ok(c, i, q) == Close(c.x, R[i].x, T) /\ Close(c.y, Diff(R[i].keys[q].m, R[i].mean), 500)
      Loose(c, i) == Close(c.x, R[i].x, T) /\ CloseS(c.y, Diff(R[i].m, R[i].mean), R[i].tm)
      One(q) == \A k \in 1..NMASS : \E j \in 1..Len(e.curves) : e.curves[j].c = k /\ \E i \in S[k] : Ok(e.curves[j], i, q)
      All == \A k \in 1..NMASS : \E j \in 1..Len(e.curves) : e.curves[j].c = k /\ \E i \in S[k] : Loose(e.curves[j], i)
  IN  CLAUSE("one-curve-per-mass", Len(e.curves) = NMASS)
      \cup CLAUSE("residuals", (\E q \in 1..Len(R[1].keys) : One(q)) \/ All)
MyClauses(s, e) ==
  CASE e.ev = "history" -> History(e)
    [] e.ev = "panel" -> Panel(e)
    [] e.ev = "panels" -> CLAUSE("declared-panels", Len(e.t) = 4 /\ { e.t[i] : i \in 1..4 } = { Panels[i] : i \in 1..4 })
    [] e.ev = "saved" -> CLAUSE("own-file-name", e.own) \cup CLAUSE("in-requested-folder", e.there /\ ~e.elsewhere)
                         \cup CLAUSE("inputs-kept", e.kept)
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
===============================================================================
