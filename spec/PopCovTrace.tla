----------------------------- MODULE PopCovTrace -----------------------------
(* "cov" lgm, ylo, yhi, x0 (4 each), rho (6); observed sd (4), corr (4x4), and  *)
(*       the same from the many-masses form (sdv, corrv) and the full set (sdf, corrf) *)
(* "sym" up, lo: single-precision bit patterns of mirrored entries (4 units in the last place);  "chol" ok: factorises in single precision *)
EXTENDS PopCov, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Tol(e, i, ref) == 20 + Abs(e.yhi[i] - e.ylo[i]) \div 250000 + Abs(ref) \div 20000
SdOK(e, sd) == \A i \in 1..4 : LET r == Scatter(e.lgm, e.x0[i], e.ylo[i], e.yhi[i]) IN Near(sd[i], r, Tol(e, i, r))
CorrOK(e, c) == \A i, j \in 1..4 : Near(c[i][j], Corr(e.rho, i, j), 30)
MyClauses(s, e) ==
  CASE e.ev = "cov" -> CLAUSE("scatter-by-mass", SdOK(e, e.sd))
                  \cup CLAUSE("named-correlation", CorrOK(e, e.corr))
                  \cup CLAUSE("positive-definite", PosDef(e.corr) /\ \A i \in 1..4 : e.sd[i] > 0)
                  \cup CLAUSE("many-masses-agree", SdOK(e, e.sdv) /\ CorrOK(e, e.corrv))
                  \cup CLAUSE("full-set-agrees", SdOK(e, e.sdf) /\ CorrOK(e, e.corrf))
    [] e.ev = "sym" -> CLAUSE("symmetric", \A i \in 1..6 :
                        e.up[i] = e.lo[i] \/ ((e.up[i] < 0) = (e.lo[i] < 0) /\ Abs(e.up[i] - e.lo[i]) <= 4))
    [] e.ev = "chol" -> CLAUSE("factorises", e.ok)
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
=============================================================================
