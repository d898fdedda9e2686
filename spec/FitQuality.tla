----------------------------- MODULE FitQuality -----------------------------
(***************************************************************************)
(* The pieces of a fit result and how they hang together.  Deviations of   *)
(* the best-fit history from the targets are given in units of 1/sc dex    *)
(* (sc = 1 or 30), losses in units of 1/sc^2.                               *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
RECURSIVE GroupSq(_, _, _)
GroupSq(d, a, b) == IF a > b THEN 0 ELSE Sq(d[a]) + GroupSq(d, a + 1, b)
RECURSIVE MeanSqFrom(_, _)
MeanSqFrom(d, a) == IF a > Len(d) THEN 0
                    ELSE LET b == Min2(a + 7, Len(d)) IN
                         ((GroupSq(d, a, b) * 2 + Len(d)) \div (2 * Len(d))) + MeanSqFrom(d, b + 1)
MeanSq(d) == MeanSqFrom(d, 1)
LossIsMeanSq(d, loss) == LET r == MeanSq(d) IN Near(loss, r, 60 + r \div 100)
LO == << 0, -ONE, 100000, 100000, 0 >>
HI == << 17 * ONE, ONE, 10 * ONE, 5 * ONE, 20 * ONE >>
InBounds(p) == Len(p) = 5 /\ \A k \in 1..5 : Finite(p[k]) /\ p[k] >= LO[k] - 2 /\ p[k] <= HI[k] + 2
NoWorse(loss, start) == Finite(loss) /\ loss <= start + 2 + start \div 50000
=============================================================================
