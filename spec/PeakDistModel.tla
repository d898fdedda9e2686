---------------------------- MODULE PeakDistModel ----------------------------
(* A sampler drawing peak times from tabulated distributions, over corner         *)
(* parameters, masses, times and every level of a uniform number.                  *)
EXTENDS PeakDist, TLC
CONSTANTS Tier, NTab
VARIABLES kind, p, m, t, q, u, pc
vars == <<kind, p, m, t, q, u, pc>>
T0 == 13800000
Lev(lo, hi) == IF Tier = 0 THEN {lo, hi} ELSE {lo, (lo + hi) \div 2, hi}
Cen == { <<a, b, c, d, e, f>> : a \in Lev(11000000, 14000000), b \in {3000000, 10000000}, c \in Lev(500000, 1000000), d \in Lev(1000000, 1800000),
                                e \in {500000, 1000000}, f \in {1000000, 1800000} }
Sat == { <<a, b, c, d, e, f, g>> : a \in {5000000, 10000000}, b \in Lev(400000, 800000), c \in {150000, 250000}, d \in Lev(11000000, 13000000),
                                   e \in {6000000, 11000000}, f \in Lev(100000, 500000), g \in {100000, 600000} }
Alt == { <<a, b, c>> : a \in Lev(10000, 900000), b \in Lev(100000, 900000), c \in Lev(100000, 900000) }
Params(k) == CASE k = "cen" -> Cen [] k = "sat" -> Sat [] k = "alt" -> Alt
Masses == IF Tier = 0 THEN {11000000, 15000000} ELSE {11000000, 13000000, 15000000}
Times == IF Tier = 0 THEN {2500000, 13500000} ELSE {2500000, 7000000, 13500000}
Levels == IF Tier = 0 THEN { 1, 100000, 500000, 900000, ONE - 1 } ELSE { 1, 2000, 100000, 300000, 500000, 700000, 900000, 998000, ONE - 1 }
Init == /\ kind \in {"cen", "sat", "alt"} /\ p = <<>> /\ m \in Masses /\ t \in Times /\ q = 0 /\ u = 0 /\ pc = "setup"
Setup == pc = "setup" /\ p' \in Params(kind) /\ pc' = "draw" /\ UNCHANGED <<kind, m, t, q, u>>
S == Shape(kind, p, m, t, T0)
Lo == IF kind = "cen" THEN 0 ELSE XMIN
Curve(s, x) == IF kind = "cen" THEN CenCurve(x, s[1]) ELSE TruncCdf(x, s[1], s[2], XMIN, ONE)
Draw == /\ pc = "draw" /\ \E l \in Levels :
             /\ q' = l
             /\ LET s == S
                    F(y) == Curve(s, y)
                    x == Between(F, Lo, ONE, NTab, l)
                IN  u' = IF kind = "cen" THEN Max2(x, FLOOR) ELSE x
        /\ pc' = "drawn" /\ UNCHANGED <<kind, p, m, t>>
Next == Setup \/ Draw
Spec == Init /\ [][Next]_vars
Known == pc = "draw"
Grid == << 100001, 150000, 300000, 450000, 600000, 750000, 900000, 999999 >>
\* a distribution: between 0 and 1, non-decreasing, 0 below its range and 1 at its end
Distribution == Known => /\ Cdf(kind, ONE, S) = ONE
                         /\ Cdf(kind, (IF kind = "cen" THEN FLOOR ELSE XMIN) - 1, S) = 0
                         /\ LET s == S
                                c == [ i \in 1..Len(Grid) |-> Cdf(kind, Grid[i], s) ] \o <<>>
                            IN  \A i \in 1..Len(c) : c[i] >= 0 /\ c[i] <= ONE /\ (i < Len(c) => c[i] <= c[i + 1] + 2)
Shapes == Known => /\ kind = "cen" => S[1] >= 499998 /\ S[1] <= 1800002
                   /\ kind = "sat" => S[1] >= 149998 /\ S[1] <= 950002 /\ S[2] >= 99998 /\ S[2] <= 600002
                   /\ kind = "alt" => S[2] >= 99998 /\ S[2] <= 1800002
\* the density is the slope of the distribution
Density == (Known /\ kind # "cen") => \A x \in {200000, 800000} :
   LET h == 5000
       d == TruncCdf(x + h, S[1], S[2], XMIN, ONE) - TruncCdf(x - h, S[1], S[2], XMIN, ONE)
   IN  Near(Mul(d * 100, S[2]), TruncDen(x, S[1], S[2], XMIN, ONE), 3000)
\* drawn values are in range and have the level they were drawn for, up to the table's spacing
Drawn == pc = "drawn" => /\ u <= ONE /\ u >= (IF kind = "cen" THEN FLOOR ELSE XMIN)
                         /\ (u > Max2(FLOOR, Lo) /\ u < ONE) => Near(Curve(S, u), q, IF kind = "cen" THEN 60000 \div NTab ELSE 260000 \div NTab)
                         /\ u = ONE => q >= Curve(S, ONE) - 3
\* massive centrals peak no earlier than light ones
Later == (Known /\ kind = "cen") => LET a == CenX0(p, 11000000, t) b == CenX0(p, 15000000, t) IN b >= a - 2
===============================================================================
