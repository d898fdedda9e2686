----------------------------- MODULE MeasureTrace -----------------------------
(* "measure" a, d, e, g, lgmp, lgt, x (target log times), and the measurements:    *)
(*    mass = log10 mean mass - lgmp, rate likewise, srate = half log10 of the      *)
(*    rate variance - lgmp, logm = log10 of the mean log mass, slog = root of its  *)
(*    variance                                                                     *)
(* "mask" x (integer log masses), first, k, z2, keep                               *)
EXTENDS Measure, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
All(e, obs, tab, tol) == Len(obs) = Len(e.x) /\ \A i \in 1..Len(e.x) : Near(obs[i], Interp(e.x[i], e.lgt, tab), tol)
MyClauses(s, e) ==
  CASE e.ev = "measure" -> LET T == Tables(e.a, e.d, e.e, e.g, e.lgmp)
                           IN  CLAUSE("mean-mass", All(e, e.mass, T.mass, 40))
                               \cup CLAUSE("mean-log-mass", All(e, e.logm, T.logm, 12))
                               \cup CLAUSE("variance-log-mass", All(e, e.slog, T.slog, 60))
                               \cup CLAUSE("mean-rate", All(e, e.rate, T.rate, 60))
                               \cup CLAUSE("variance-rate", All(e, e.srate, T.srate, 400))
    [] e.ev = "mask" -> LET m == Mask(e.x, e.first, e.k, e.z2)
                            g == Edge(e.x, e.first, e.k, e.z2)
                        IN  CLAUSE("outlier-mask", Len(e.keep) = Len(m) /\ \A h \in 1..Len(m) : g[h] \/ e.keep[h] = m[h])
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
===============================================================================
