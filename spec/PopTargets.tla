------------------------------ MODULE PopTargets ------------------------------
(* Tabulation of fitted halos into (mass, time) bins, the tables of their          *)
(* moments, and the selection of targets for the population fit.                   *)
EXTENDS Fix, FiniteSets
Fz(f) == f \o <<>>
T0 == 13797616
WIDTH == 150000
CAP == 34

(* ----------------------------------- bins ------------------------------------ *)
Lin(a, b, n, i) == a + ((b - a) * (i - 1)) \div (n - 1)
TObs(n, i) == Lin(2 * ONE, T0, n, i)
MassTop(t) == 15 * ONE + Mul(75000, t - 15 * ONE)
BinMass(t, n, i) == Lin(11 * ONE, MassTop(t), n, i)
\* snapshot nearest to t (ties: either)
IsNearest(t, tab, k) == \A j \in 1..Len(tab) : Abs(tab[k] - t) <= Abs(tab[j] - t)
Nearest(t, tab) == CHOOSE k \in 1..Len(tab) : IsNearest(t, tab, k)

(* a halo: fit (has one), lm (its mass at the bin's time), cen[k] (a central at snapshot k) *)
InBin(h, m) == h.fit /\ Abs(h.lm - m) < WIDTH
\* indices of the halos of one subvolume that the bin holds, in catalogue order
RECURSIVE Pick(_, _, _)
Pick(P(_), n, i) == IF i > n THEN <<>> ELSE (IF P(i) THEN <<i>> ELSE <<>>) \o Pick(P, n, i + 1)
First(s, c) == IF Len(s) > c THEN SubSeq(s, 1, c) ELSE s
Members(H, m, k, cen, cap) == LET P(i) == InBin(H[i], m) /\ H[i].cen[k] = cen IN First(Pick(P, Len(H), 1), cap)

(* ----------------------------------- moments --------------------------------- *)
ColOf(a, t) == Fz([ h \in 1..Len(a) |-> a[h][t] ])
Mean(c) == c[1] + SumSeq(Fz([ i \in 1..Len(c) |-> c[i] - c[1] ])) \div Len(c)
Std(c) == LET u == Mean(c) IN Sqrt(SumSeq(Fz([ i \in 1..Len(c) |-> Sq(c[i] - u) ])) \div Len(c))
\* every history shifted to end at mass m
Ending(a, m) == Fz([ h \in 1..Len(a) |-> Fz([ t \in 1..Len(a[h]) |-> a[h][t] - a[h][Len(a[h])] + m ]) ])
FracBefore(tp, t) == (Cardinality({ i \in 1..Len(tp) : tp[i] < t }) * ONE) \div Len(tp)

(* ----------------------------------- targets --------------------------------- *)
\* bins (lgm, t, n: number of rows) that satisfy the limits, in table order
Wanted(b, tmin, mmax, nmin) == b.t > tmin /\ b.lgm < mmax /\ b.n >= nmin
SelectBins(B, tmin, mmax, nmin) == SelectSeq(B, LAMBDA b : Wanted(b, tmin, mmax, nmin))
===============================================================================
