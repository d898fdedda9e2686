---------------------------- MODULE FitCompTrace ----------------------------
(* "fit" kind, p (result), p0 (start), data, loss (scaled by 1/unit), unit, ok      *)
(*       (finite), code, term, forced: the quasi-Newton stage was made to fail,       *)
(*       exact: the data are the curve of parameters p1, start: "own" or "other"      *)
EXTENDS FitComp, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
\* parameters small enough for the arithmetic
Usable(kind, p) == IF kind \in {"c0", "c1"} THEN \A i \in 1..Len(Names(kind)) : Abs(p[Names(kind)[i]]) <= 100 * ONE
                   ELSE p.scale >= 30000
Limit(e) == IF e.kind \in {"c0", "c1"} THEN 5 ELSE IF e.kind = "utp" THEN 400 ELSE 20
LossNear(e, a, b) == Near(a, b, Limit(e) + Max2(Abs(a), Abs(b)) \div 50)
MyClauses(st0, e) ==
  CASE e.ev = "fit" ->
      CLAUSE("finite", e.ok)
      \cup (IF ~e.ok THEN {} ELSE
         CLAUSE("loss-not-negative", e.loss >= 0)
         \cup CLAUSE("stage-code", e.code = (IF e.forced THEN 1 ELSE e.code) /\ e.code \in {0, 1} /\ (e.code = 0 => e.term))
         \cup CLAUSE("in-bounds", e.kind \in {"c0", "c1"} \/ (LocOK(e.p.loc) /\ ScaleOK(e.p.scale)))
         \cup (IF ~Usable(e.kind, e.p) THEN {} ELSE
               CLAUSE("loss-of-the-result", LossNear(e, e.loss, Loss(e.kind, e.p, e.data))))
         \cup (IF ~Usable(e.kind, e.p0) THEN {} ELSE
               CLAUSE("no-worse-than-start", e.loss <= Loss(e.kind, e.p0, e.data) + Limit(e) + e.loss \div 50))
         \cup CLAUSE("own-curve-kept", e.start # "own" \/ e.loss <= Limit(e))
         \cup CLAUSE("own-curve-recovered", ~e.recover \/ (Near(e.p.loc, e.p1.loc, 10000) /\ Near(e.p.scale, e.p1.scale, 10000)
                                                          /\ e.loss <= Limit(e))))
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
===============================================================================
