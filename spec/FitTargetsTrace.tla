--------------------------- MODULE FitTargetsTrace ---------------------------
(* "targets" h, t, c; lg, tt: targets used; tol      "start" finite: bool        *)
(* "skip"    h, t, c, force; skip: reported; par, loss, code, term: all results  *)
(* "peak"    h, t, c; tp (in the loss data), tpfit (-1 if not fitted), age; tol   *)
(* "age"     t; age used in the fit                                             *)
(* "index"   h (rows), one, many: indices from 0                                 *)
EXTENDS FitTargets, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
AllNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
MyClauses(s, e) ==
  CASE e.ev = "targets" -> LET y == TargetMass(e.h, e.t, e.c) x == TargetTime(e.h, e.t, e.c) IN
           CLAUSE("exactly-the-allowed-points", Len(e.lg) = Len(y) /\ AllNear(e.tt, x, e.tol))
      \cup CLAUSE("running-maximum-of-the-masses", Len(e.lg) # Len(y) \/ AllNear(e.lg, y, e.tol))
      \cup CLAUSE("finite-targets", \A i \in 1..Len(e.lg) : Finite(e.lg[i]))
      \cup CLAUSE("finite-start", e.start)
    [] e.ev = "skip" -> LET k == Skipped(e.h, e.t, e.c, e.force) IN
           CLAUSE("skipped-exactly-when-uninformative", e.skip = k)
      \cup CLAUSE("sentinels-of-a-skipped-fit", ~e.skip \/ (/\ \A i \in 1..Len(e.par) : e.par[i] = NOFIT
                                                            /\ e.loss = NOFIT /\ e.code = NOCODE /\ ~e.term))
      \cup CLAUSE("no-sentinel-in-a-fit", e.skip \/ (/\ \A i \in 1..Len(e.par) : e.par[i] # NOFIT
                                                     /\ e.loss # NOFIT /\ e.code \in {0, 1}))
      \cup CLAUSE("five-parameters", Len(e.par) = 5)
    [] e.ev = "peak" -> CLAUSE("first-time-at-final-mass", Near(e.tp, PeakTime(e.h, e.t, e.c), e.tol))
                   \cup CLAUSE("peak-time-never-fitted", e.tpfit < 0 \/ Near(e.tpfit, PeakTime(e.h, e.t, e.c), e.tol))
                   \cup CLAUSE("age-is-last-time", Near(e.age, e.t[Len(e.t)], e.tol))
    [] e.ev = "age" -> CLAUSE("age-is-last-time", Near(e.age, e.t[Len(e.t)], e.tol))
    [] e.ev = "index" -> CLAUSE("first-index", \A i \in 1..Len(e.h) : e.one[i] + 1 = FirstFinal(e.h[i]))
                    \cup CLAUSE("population-agrees", e.many = e.one)
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
=============================================================================
