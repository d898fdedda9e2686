---------------------------- MODULE PopMeanTrace ----------------------------
(* "pop"   p: a population parameter set, in force until the next one          *)
(* "q"     q: which prediction, f family, m, t, tp, x: fourth argument, got, tol *)
(* "fec"   m, t, got   "mean" v: mean parameters of one halo, in bounds         *)
(* "halo"  v: five parameters; y: history in time order; tol                    *)
(* "drawn" e, i, m, t, tp, got (four), tol (four): nearly unscattered halo      *)
(* "mono"  y: values over increasing argument                                   *)
EXTENDS PopMean, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Value(p, e) ==
  CASE e.q = "c0" -> C0(p, e.f, e.t, e.tp)
    [] e.q = "c1" -> C1(p, e.f, e.t, e.tp)
    [] e.q = "logm0" -> Logm0(p, e.f, e.m, e.t, e.tp)
    [] e.q = "logtc" -> Logtc(p, e.f, e.m, e.t, e.tp)
    [] e.q = "early" -> EarlyIdx(p, e.f, e.m, e.t, e.tp)
    [] e.q = "late" -> LateIdx(p, e.f, e.m)
    [] e.q = "fec" -> Fec(p, e.m, e.t)
    [] e.q = "ftpt0" -> Ftpt0(p, e.m, e.t)
    [] e.q = "peaked" -> FracPeaked(p, e.x, e.m, e.t)
    [] e.q = "satloc" -> SatLoc(p, e.m, e.t)
    [] e.q = "satscale" -> SatScale(p, e.m, e.t)
    [] e.q = "cenloc" -> 950000
    [] e.q = "censcale" -> CenScale(p, e.m, e.t, e.x)
NonDec(y, tol) == \A i \in 1..(Len(y) - 1) : y[i + 1] >= y[i] - tol
MyClauses(p, e) ==
  CASE e.ev = "q" -> CLAUSE("formula-" \o e.q, Near(e.got, Value(p, e), e.tol))
    [] e.ev = "fec" -> CLAUSE("early-fraction-limits", Finite(e.got) /\ e.got >= FecMin - 2 /\ e.got <= FecMax + 2
                                                       /\ BetweenOwn(e.got, FecLo(p, e.t), FecHi(p, e.t), 4))
    [] e.ev = "mean" -> CLAUSE("inside-bounds", InBounds(e.v))
    [] e.ev = "halo" -> CLAUSE("generated-halo-in-bounds", \A k \in 1..5 : Finite(e.v[k]) /\ e.v[k] >= LO[k] /\ e.v[k] <= HI[k])
                  \cup CLAUSE("generated-history-finite", \A i \in 1..Len(e.y) : Finite(e.y[i]))
                  \cup CLAUSE("generated-history-non-decreasing", NonDec(e.y, e.tol))
    [] e.ev = "drawn" -> CLAUSE("generated-about-the-mean",
          LET r == << Logm0(p, e.e, e.m, e.t, e.tp), Logtc(p, e.c, e.m, e.t, e.tp), EarlyIdx(p, e.i, e.m, e.t, e.tp), LateIdx(p, e.i, e.m) >>
          IN \A k \in 1..4 : Near(e.got[k], r[k], e.tol[k]))
    [] e.ev = "mono" -> CLAUSE("monotone", NonDec(e.y, 1))
    [] OTHER -> {}
MySt0 == <<>>
MyStep(p, e) == IF e.ev = "pop" THEN e.p ELSE p
=============================================================================
