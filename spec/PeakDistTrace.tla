---------------------------- MODULE PeakDistTrace ----------------------------
(* "shape"  kind, p, m, t, t0, got: midpoint, or location and width                *)
(* "law"    kind, s (shape), xs, cdf, den (width times density; <<>> if none)       *)
(* "sample" kind, p, t0, m, t, u (one entry per halo), at (thresholds), slack         *)
(*          (allowance for the sampler's table, 10^-6)                                 *)
(* "tally"  the same for n draws for one halo: cnt = number not above each threshold *)
EXTENDS PeakDist, TraceKit
CLAUSE(name, ok) == IF ok THEN {} ELSE {name}
Fz(f) == f \o <<>>
N(e) == Len(e.u)
ShapesOf(e) == Fz([ i \in 1..Len(e.u) |-> Shape(e.kind, (IF e.per THEN e.p[i] ELSE e.p), e.m[i], e.t[i], e.t0) ])
\* expected number below x in units of 10^-5 halos, and its variance in units of 10^-3
RECURSIVE SumC(_, _, _)
SumC(c, i, a) == IF i > Len(c) THEN a ELSE SumC(c, i + 1, a + (c[i] + 5) \div 10)
RECURSIVE SumV(_, _, _)
SumV(c, i, a) == IF i > Len(c) THEN a ELSE SumV(c, i + 1, a + Mul(c[i], ONE - c[i]) \div 1000)
RECURSIVE Below(_, _, _, _)
Below(v, x, i, a) == IF i > Len(v) THEN a ELSE Below(v, x, i + 1, a + (IF v[i] <= x THEN 1 ELSE 0))
\* |count - mean| <= 6 standard deviations + table allowance + a few halos
Calibrated(e, s, x) ==
  LET n == Len(e.u)
      c == Fz([ i \in 1..n |-> Cdf(e.kind, x, s[i]) ])
      mean == SumC(c, 1, 0) \div 10000                     \* tenths of a halo
      var == SumV(c, 1, 0)
      obs == 10 * Below(e.u, x, 1, 0)
      d == Max2(0, Abs(obs - mean) - 30 - (n * (e.slack \div 10)) \div 10000)
  IN  d * d <= (36 * var) \div 10 + 1
\* the same for n like halos with distribution value c at the threshold: everything in shares (10^-6);
\* sd of a share = sqrt(c (1 - c) / n)
LikeHalos(n, c, cnt, slack) ==
  LET share == (cnt * 100) \div (n \div 10000)
      v == Mul(c, ONE - c)                                     \* at most 0.25
      sd == Div(Sqrt(Max2(v, 1)), Sqrt((n \div 10000) * ONE)) \div 100
  IN  Near(share, c, 6 * sd + slack + 2 + 5000000 \div n)
Tol(sc) == 30 + 1000000 \div sc
MyClauses(st0, e) ==
  CASE e.ev = "shape" -> LET s == Shape(e.kind, e.p, e.m, e.t, e.t0) IN
                           CLAUSE(e.what, Len(e.got) >= 1 /\ \A i \in 1..Len(e.got) : Near(e.got[i], s[i], 25))
    [] e.ev = "law" -> CLAUSE("distribution-law", \A i \in 1..Len(e.xs) : Near(e.cdf[i], Cdf(e.kind, e.xs[i], e.s), IF e.kind = "cen" THEN 20 ELSE Tol(e.s[2])))
                       \cup CLAUSE("density-law", \A i \in 1..Len(e.den) : Near(e.den[i], TruncDen(e.xs[i], e.s[1], e.s[2], XMIN, ONE), Tol(e.s[2])))
    [] e.ev = "sample" -> LET s == ShapesOf(e) IN
          CLAUSE("finite-in-range", \A i \in 1..N(e) : e.u[i] >= (IF e.kind = "cen" THEN FLOOR ELSE XMIN) - 60 /\ e.u[i] <= ONE + 60)
          \cup UNION { CLAUSE("declared-distribution", Calibrated(e, s, e.at[j])) : j \in 1..Len(e.at) }
    [] e.ev = "tally" -> LET s == Shape(e.kind, e.p, e.m, e.t, e.t0) IN
          CLAUSE("finite-in-range", e.lo >= (IF e.kind = "cen" THEN FLOOR ELSE XMIN) - 60 /\ e.hi <= ONE + 60)
          \cup CLAUSE("declared-distribution", \A j \in 1..Len(e.at) : LikeHalos(e.n, Cdf(e.kind, e.at[j], s), e.cnt[j], e.slack))
    [] OTHER -> {}
MySt0 == 0
MyStep(s, e) == s
===============================================================================
