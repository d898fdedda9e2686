-------------------------- MODULE MahHistoryModel ---------------------------
(* Design-level model: a halo (any parameters of a lattice) observed while   *)
(* cosmic time advances over a lattice.  One action: time moves one step.    *)
EXTENDS MahHistory, TLC
CONSTANT Tier                                  \* 1: quick lattice, 2: thorough lattice
M0s  == {0, 12000000, 17000000}
Tcs  == IF Tier = 1 THEN {-1000000, 50000, 1000000} ELSE {-1000000, -400000, 50000, 500000, 1000000}
Es   == IF Tier = 1 THEN {100000, 2600000, 10000000} ELSE {100000, 1000000, 2600000, 5000000, 10000000}
Ls   == IF Tier = 1 THEN {100000, 1500000, 5000000} ELSE {100000, 800000, 1500000, 3000000, 5000000}
Lps  == IF Tier = 1 THEN {-1301030, 200000, 1139879, 1301030} ELSE {-1301030, -300000, 200000, 700000, 1139879, 1301030}
Lt0s == IF Tier = 1 THEN {1139879} ELSE {1139879, 1050000, 1176091}
Times == IF Tier = 1
         THEN <<-1301030, -300000, 200000, 400000, 700000, 1000000, 1139879, 1301030>>
         ELSE <<-2000000, -1301030, -700000, -300000, 0, 100000, 200000, 300000, 400000, 500000, 600000,
                700000, 800000, 900000, 1000000, 1050000, 1139879, 1176091, 1220000>>
VARIABLES p, k, m
vars == <<p, k, m>>

Rel(q, lt) == IF lt < q.lp THEN -1 ELSE IF lt = q.lp THEN 0 ELSE 1
Init == /\ p \in [m0 : M0s, tc : Tcs, e : Es, l : Ls, lp : Lps, lt0 : Lt0s]
        /\ p.e >= p.l
        /\ k = 1
        /\ m = Mass(p, Times[1], Rel(p, Times[1]))
Advance == /\ k < Len(Times) /\ k' = k + 1
           /\ m' = Mass(p, Times[k + 1], Rel(p, Times[k + 1]))
           /\ UNCHANGED p
Next == Advance
Spec == Init /\ [][Next]_vars

T == Times[k]
\* --- state invariants (tolerances are fixed-point rounding)
Frozen       == T >= p.lp => m = Peak(p)
NeverAbove   == m <= Peak(p) + 30 \/ T > p.lp
Anchor       == (T = p.lt0 /\ p.lp > p.lt0) => m = p.m0
AboutAnchor  == (p.lp >= p.lt0 /\ T >= p.lt0) => m >= p.m0 - 30
BetweenIdx   == IndexBetween(p, T)
RateNonNeg   == RateSlope(p, T, Rel(p, T)) >= -60
\* the stated slope is the derivative of the stated mass (central difference, h = 0.002)
H == 2000
SlopeIsDeriv == LET d == (Free(p, T + H) - Free(p, T - H)) * 250
                IN  Abs(d - Slope(p, T)) <= 2500 + Abs(Slope(p, T)) \div 300
ShiftInM0    == Mass([p EXCEPT !.m0 = @ + ONE], T, Rel(p, T)) = m + ONE
\* --- action property
Monotone     == [][m' >= m - 30]_vars
=============================================================================
