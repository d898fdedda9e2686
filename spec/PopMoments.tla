----------------------------- MODULE PopMoments -----------------------------
(***************************************************************************)
(* A bin of Monte Carlo halos; halo h has an early history value, a late   *)
(* one and an early fraction f.  Early counts with weight f/n, late with   *)
(* (1-f)/n.  A loss compares predicted with target moments.                *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
Contribution(h) == Mul(h.f, h.e) + Mul(ONE - h.f, h.l)
SqContribution(h, mu) == Mul(h.f, Sq(h.e - mu)) + Mul(ONE - h.f, Sq(h.l - mu))
\* mean of F over the halos, summed in groups of four so that nothing overflows
RECURSIVE GroupSum(_, _, _, _)
GroupSum(F(_), hs, a, b) == IF a > b THEN 0 ELSE F(hs[a]) + GroupSum(F, hs, a + 1, b)
RECURSIVE MeanFrom(_, _, _)
MeanFrom(F(_), hs, a) ==
  IF a > Len(hs) THEN 0
  ELSE LET b == Min2(a + 3, Len(hs)) IN ((GroupSum(F, hs, a, b) * 2 + Len(hs)) \div (2 * Len(hs))) + MeanFrom(F, hs, b + 1)
MixMean(hs) == MeanFrom(Contribution, hs, 1)
MixVar(hs, mu) == LET G(h) == SqContribution(h, mu) IN MeanFrom(G, hs, 1)
RECURSIVE MinOver(_, _)
MinOver(hs, i) == IF i = 0 THEN 2000000000 ELSE Min2(Min2(hs[i].e, hs[i].l), MinOver(hs, i - 1))
RECURSIVE MaxOver(_, _)
MaxOver(hs, i) == IF i = 0 THEN -2000000000 ELSE Max2(Max2(hs[i].e, hs[i].l), MaxOver(hs, i - 1))
MeanOK(hs, mean, tol) == Near(mean, MixMean(hs), tol)
StdOK(hs, mean, std) == /\ Finite(std) /\ std >= 0
                        /\ LET v == MixVar(hs, mean) IN Near(Sq(std), v, 30 + v \div 3000)
WithinSample(hs, mean, tol) == mean >= MinOver(hs, Len(hs)) - tol /\ mean <= MaxOver(hs, Len(hs)) + tol
\* loss of one bin: mean over times of squared differences of means and of scatters
RECURSIVE MseFrom(_, _, _)
MseFrom(p, t, i) == IF i = 0 THEN 0 ELSE Sq(p[i] - t[i]) \div Len(p) + MseFrom(p, t, i - 1)
Mse(p, t) == MseFrom(p, t, Len(p))
BinLoss(b) == Mse(b.m, b.tm) + Mse(b.s, b.ts)
RECURSIVE LossSum(_, _)
LossSum(bs, i) == IF i = 0 THEN 0 ELSE BinLoss(bs[i]) + LossSum(bs, i - 1)
MultiLoss(bs) == LossSum(bs, Len(bs)) \div Len(bs)
=============================================================================
