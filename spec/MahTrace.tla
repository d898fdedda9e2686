------------------------------ MODULE MahTrace ------------------------------
(* Trace validation of evaluated histories against MahHistory.               *)
(*  "mass"   C01: e.y[i] at ordered times, e.f[i] the same halo never peaking, *)
(*           e.fp its mass at the peak time, e.rel[i] order w.r.t. the peak    *)
(*  "law"    C02: e.p parameters, e.lt[i], e.rel[i], e.y[i]                    *)
(*  "shift"  C02: e.y[i], e.z[i] with normalisation shifted by e.d             *)
(*  "const"  C02: exposed constants                                           *)
(*  "rate"   C03: e.s[i] = rate * t / M (1e9 yr), e.d[i] its finite difference *)
(*           (slope of the returned mass; NAN where not taken), e.rel[i]       *)
(*  "prec"   C03: single and double precision rate agree                      *)
(*  "gain"   C03: Simpson integral of the rate = mass gained                  *)
EXTENDS MahHistory, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
All(n, P(_)) == \A i \in 1..n : P(i)
N(e) == Len(e.y)

MassClauses(e) ==
  CLAUSE("finite", All(N(e), LAMBDA i : Finite(e.y[i])))
  \cup CLAUSE("monotone", All(N(e) - 1, LAMBDA i : e.y[i + 1] >= e.y[i] - 5))
  \cup CLAUSE("frozen", All(N(e), LAMBDA i : e.rel[i] >= 0 => Near(e.y[i], e.fp, 8)))
  \cup CLAUSE("unfrozen-before-peak", All(N(e), LAMBDA i : e.rel[i] < 0 => Near(e.y[i], e.f[i], 8)))
  \cup CLAUSE("never-above-peak", All(N(e), LAMBDA i : e.y[i] <= e.fp + 8))

\* fixed-point resolution of the logistic (2e-6) amplified by the index range and the lever arm
LawTol(p, lt) == 12 + 2 * (Mul(Abs(p.e - p.l), Abs(lt - p.lt0)) \div ONE)
LawClauses(e) ==
  CLAUSE("growth-law", All(N(e), LAMBDA i :
      /\ Finite(e.y[i])
      /\ Near(e.y[i], Mass(e.p, e.lt[i], e.rel[i]), LawTol(e.p, IF e.rel[i] < 0 THEN e.lt[i] ELSE e.p.lp))))
  \cup CLAUSE("index-between", All(N(e), LAMBDA i :
      LET x == e.lt[i] - e.p.lt0  d == e.y[i] - e.p.m0
      IN  (e.rel[i] < 0) =>
          /\ d >= Min2(Mul(e.p.e, x), Mul(e.p.l, x)) - 25
          /\ d <= Max2(Mul(e.p.e, x), Mul(e.p.l, x)) + 25))
  \cup CLAUSE("anchor", All(N(e), LAMBDA i :
      (e.lt[i] = e.p.lt0 /\ e.p.lp > e.p.lt0) => Near(e.y[i], e.p.m0, 5)))

ShiftClauses(e) == CLAUSE("shift", All(N(e), LAMBDA i : Near(e.z[i] - e.y[i], e.d, 25)))
ConstClauses(e) == CLAUSE("constants", All(Len(e.k), LAMBDA i : e.k[i] = MAHK)
                                       /\ All(Len(e.a), LAMBDA i : e.a[i] = e.b[i]))

RateClauses(e) ==
  CLAUSE("rate-finite", All(N(e), LAMBDA i : Finite(e.y[i])))
  \cup CLAUSE("rate-negative", All(N(e), LAMBDA i : e.y[i] >= -3))
  \cup CLAUSE("zero-after-peak", All(N(e), LAMBDA i : e.rel[i] > 0 => e.raw[i] = 0))
  \cup CLAUSE("rate-is-derivative", All(N(e), LAMBDA i :
         (e.rel[i] < 0 /\ e.d[i] # NAN) => Near(e.y[i], e.d[i], 60 + Abs(e.d[i]) \div 100000)))
PrecClauses(e) ==
  CLAUSE("rate-precision", All(N(e), LAMBDA i : Near(e.y[i], e.z[i], 300 + Abs(e.z[i]) \div 5000)))

\* Simpson's rule over an even number of intervals; e.y[i] = rate_i * width / gained scale
RECURSIVE Simpson(_, _, _)
Simpson(y, i, n) == IF i > n THEN 0
                    ELSE (IF i = 1 \/ i = n THEN y[i] ELSE IF i % 2 = 0 THEN 4 * y[i] ELSE 2 * y[i])
                         + Simpson(y, i + 1, n)
GainClauses(e) == CLAUSE("integral", Near(Simpson(e.y, 1, N(e)) \div 3, e.gain, 400))

MyClauses(st0, e) ==
  CASE e.ev = "mass"  -> MassClauses(e)
    [] e.ev = "law"   -> LawClauses(e)
    [] e.ev = "shift" -> ShiftClauses(e)
    [] e.ev = "const" -> ConstClauses(e)
    [] e.ev = "rate"  -> RateClauses(e)
    [] e.ev = "prec"  -> PrecClauses(e)
    [] e.ev = "gain"  -> GainClauses(e)
    [] e.ev = "raises" -> {"raises"}
MySt0 == 0
MyStep(st0, e) == 0
=============================================================================
