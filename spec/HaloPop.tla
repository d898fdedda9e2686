------------------------------ MODULE HaloPop ------------------------------
(***************************************************************************)
(* Monte Carlo generation of a halo population.  Randomness is a tree of    *)
(* keys; a key is consumed either by one draw or by splitting.              *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
UTP_MIN_CEN == 50000            \* least t_peak of a central, in units of today's age
UTP_MIN_SAT == 100000           \* least t_peak of a satellite, in units of its t_obs
\* one halo: a early, b late, c returned (sequences of equal length), early?
Whole(a, b, c, early) == c = (IF early THEN a ELSE b)
WholeEither(a, b, c) == c = a \/ c = b
Select(flags, p1, p0) == [i \in 1..Len(flags) |-> IF flags[i] THEN p1[i] ELSE p0[i]]
\* physical range of a generated peak time; tol absorbs single precision
PeakTimeOK(kind, tp, ref, tol) ==
  /\ Finite(tp) /\ tp > 0 /\ tp <= ref + tol
  /\ tp >= Mul(IF kind = "cen" THEN UTP_MIN_CEN ELSE UTP_MIN_SAT, ref) - tol
\* binomial share: |count - mean| within 6 standard deviations (+1); mean and
\* var are given in units of 1/1000; plain integers, count < 10^5
ShareOK(count, mean1000, var1000) ==
  LET d == Max2(0, Abs(count * 1000 - mean1000) - 1000) \div 1000
  IN  d < 1400 /\ d * d * 1000 <= 36 * var1000
=============================================================================
