--------------------------- MODULE PopMomentsTrace ---------------------------
(* "mom"   hs (early/late deviations from a reference, early fractions), mean, *)
(*         std of one requested time                                           *)
(* "len"   want, got: predictions made        "same" a, b, t: equal within t   *)
(* "loss"  bins (predictions and targets), got, tol                            *)
(* "sum"   parts, got, tol     "zero" got, tol      "nonneg" got               *)
(* "differ" a, b                                                               *)
EXTENDS PopMoments, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
MyClauses(s, e) ==
  CASE e.ev = "mom" -> CLAUSE("mixture-mean", MeanOK(e.hs, e.mean, 12))
                  \cup CLAUSE("mixture-scatter", StdOK(e.hs, e.mean, e.std))
                  \cup CLAUSE("mean-within-sample", Finite(e.mean) /\ WithinSample(e.hs, e.mean, 12))
    [] e.ev = "len" -> CLAUSE("one-prediction-per-time", e.want = e.got)
    [] e.ev = "same" -> CLAUSE(e.what, Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Near(e.a[i], e.b[i], e.t))
    [] e.ev = "loss" -> CLAUSE("mean-over-bins-of-both-errors",
                              LET r == MultiLoss(e.bins) IN Near(e.got, r, e.tol + r \div 5000))
    [] e.ev = "sum" -> CLAUSE("sum-of-parts", LET r == SumSeq(e.parts) IN Near(e.got, r, e.tol + Abs(r) \div 5000))
    [] e.ev = "zero" -> CLAUSE("zero-at-own-prediction", Finite(e.got) /\ Abs(e.got) <= e.tol)
    [] e.ev = "nonneg" -> CLAUSE("non-negative", Finite(e.got) /\ e.got >= 0)
    [] e.ev = "differ" -> CLAUSE(e.what, e.a # e.b)
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
=============================================================================
