----------------------------- MODULE MahHistory -----------------------------
(***************************************************************************)
(* The halo growth law, stated once.  All reals are Fix numbers (10^-6).   *)
(*   p.m0  log10 mass normalisation         p.tc  transition log10 time    *)
(*   p.e   early index   p.l late index     p.lp  log10 peak time          *)
(*   p.lt0 log10 of today's age                                            *)
(* rel is the order of a time with respect to the peak time: -1, 0, +1.    *)
(***************************************************************************)
EXTENDS Fix

MAHK == 3500000
LN10 == 2302585

Index(p, lt) == Sigmoid(lt, p.tc, MAHK, p.e, p.l)
Free(p, lt)  == p.m0 + Mul(Index(p, lt), lt - p.lt0)
Peak(p)      == Free(p, p.lp)
Mass(p, lt, rel) == IF rel < 0 THEN Free(p, lt) ELSE Peak(p)

\* d Index / d lt and the logarithmic slope d log10 M / d log10 t
DIndex(p, lt) == LET s == Sig(SatMul(MAHK, lt - p.tc))
                 IN  Mul(Mul(p.l - p.e, MAHK), Mul(s, ONE - s))
Slope(p, lt)  == Index(p, lt) + Mul(DIndex(p, lt), lt - p.lt0)
\* rate * t / M in units where M is in Msun, t in years
RateSlope(p, lt, rel) == IF rel > 0 THEN 0 ELSE Slope(p, lt)

IndexBetween(p, lt) == LET i == Index(p, lt)
                       IN  Min2(p.e, p.l) - 2 <= i /\ i <= Max2(p.e, p.l) + 2
=============================================================================
