--------------------------- MODULE FitQualityTrace ---------------------------
(* "fit"    d: deviations, loss (both scaled), par, lossfx, start: losses unscaled *)
(* "again"  loss from the loss function itself, at the returned parameters         *)
(* "recover" worst mean square deviation allowed: lim                              *)
(* "median" losses of recoverable histories (sorted), lim                          *)
EXTENDS FitQuality, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
MyClauses(s, e) ==
  CASE e.ev = "fit" -> CLAUSE("loss-is-mean-square", LossIsMeanSq(e.d, e.loss))
                  \cup CLAUSE("in-bounds", InBounds(e.par))
                  \cup CLAUSE("early-at-least-late", e.par[3] >= e.par[4] - 2)
                  \cup CLAUSE("no-worse-than-start", NoWorse(e.lossfx, e.start))
    [] e.ev = "recover" -> CLAUSE("recovers-model-histories", Finite(e.loss) /\ e.loss <= e.lim)
    [] e.ev = "median" -> CLAUSE("recovers-model-histories", e.loss[(Len(e.loss) + 1) \div 2] <= e.lim)
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
=============================================================================
