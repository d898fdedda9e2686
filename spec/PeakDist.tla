------------------------------- MODULE PeakDist -------------------------------
(* Distributions of the generated peak times.                                     *)
(*   centrals: fraction of halos whose peak time is below u times today's age is   *)
(*     a logistic curve in u whose midpoint rolls with mass and observation time;   *)
(*     drawn values are kept above FLOOR, and what the curve leaves above 1 peaks    *)
(*     today;                                                                       *)
(*   satellites: u = peak time / observation time follows a normal distribution      *)
(*     truncated to [XMIN, 1] whose location and width roll with mass and time;       *)
(*   alternative centrals: the same kind of curve in peak time / today's age with     *)
(*     fixed location and a width that shrinks with mass and with time.               *)
EXTENDS Fix, NormTable
FLOOR == 50000
XMIN == 100000

(* --------------------------- normal distribution ------------------------------ *)
\* z within +-6, third-order Taylor step from a table of spacing 1/32
PhiPos(z) == IF z >= 5984375 THEN ONE
             ELSE LET i == (z + 15625) \div 31250
                      z0 == i * 31250
                      r == z - z0
                      d == NORMPDF[i + 1]
                      r2 == Mul(r, r)
                  IN  NORMCDF[i + 1] + Mul(r, d) - (Mul(Mul(r2, z0), d) \div 2) + (Mul(Mul(Mul(r2, r), Mul(z0, z0) - ONE), d) \div 6)
Phi(z) == IF z >= 0 THEN PhiPos(z) ELSE ONE - PhiPos(-z)
DenPos(z) == IF z >= 5984375 THEN 0
             ELSE LET i == (z + 15625) \div 31250
                      z0 == i * 31250
                      r == z - z0
                      d == NORMPDF[i + 1]
                      r2 == Mul(r, r)
                  IN  d - Mul(Mul(r, z0), d) + (Mul(Mul(r2, Mul(z0, z0) - ONE), d) \div 2)
Den(z) == DenPos(Abs(z))
\* standardised, saturating
Std(x, loc, sc) == LET d == x - loc IN IF Abs(d) \div 1000 >= (sc \div 1000 + 1) * 7 THEN (IF d < 0 THEN -7 * ONE ELSE 7 * ONE) ELSE Div(d, sc)
Mass(loc, sc, lo, hi) == Phi(Std(hi, loc, sc)) - Phi(Std(lo, loc, sc))
TruncCdf(x, loc, sc, lo, hi) == IF x <= lo THEN 0 ELSE IF x >= hi THEN ONE
                                ELSE Div(Phi(Std(x, loc, sc)) - Phi(Std(lo, loc, sc)), Mass(loc, sc, lo, hi))
\* width times density
TruncDen(x, loc, sc, lo, hi) == IF x < lo \/ x > hi THEN 0 ELSE Div(Den(Std(x, loc, sc)), Mass(loc, sc, lo, hi))

(* --------------------------- centrals ----------------------------------------- *)
(* p = <<mass midpoint, time midpoint, low early, high early, low late, high late>>  *)
CenX0(p, m, t) == Sigmoid(t, p[2], 2 * ONE, Sigmoid(m, p[1], ONE, p[3], p[4]), Sigmoid(m, p[1], ONE, p[5], p[6]))
CenCurve(u, x0) == Sigmoid(u, x0, 5 * ONE, 0, ONE)
CenCdf(u, x0) == IF u < FLOOR THEN 0 ELSE IF u >= ONE THEN ONE ELSE CenCurve(u, x0)

(* --------------------------- satellites --------------------------------------- *)
(* p = <<location: time midpoint, early, late, mass midpoint; width: time midpoint, early, late>> *)
SatLoc(p, m, t) == Sigmoid(m, p[4], 1500000, Sigmoid(t, p[1], 400000, p[2], p[3]), 950000)
SatScale(p, m, t) == Sigmoid(m, 12 * ONE, ONE, Sigmoid(t, p[5], ONE, p[6], p[7]), 160000)
SatCdf(u, loc, sc) == TruncCdf(u, loc, sc, XMIN, ONE)

(* --------------------------- alternative centrals ----------------------------- *)
(* p = <<boost at early times, width at low mass, width at high mass>>               *)
AltLoc == 950000
AltScale(p, m, t, t0) == Sigmoid(m, 12500000, 2 * ONE, p[2], p[3]) + Sigmoid(t, t0 \div 2, ONE, p[1], 0)

(* distribution of a halo's u: kind, parameters, mass, observation time, today       *)
Shape(kind, p, m, t, t0) == CASE kind = "cen" -> <<CenX0(p, m, t), 0>>
                              [] kind = "sat" -> <<SatLoc(p, m, t), SatScale(p, m, t)>>
                              [] kind = "alt" -> <<AltLoc, AltScale(p, m, t, t0)>>
                              [] kind = "utp" -> <<p[1], p[2]>>
Cdf(kind, u, s) == IF kind = "cen" THEN CenCdf(u, s[1]) ELSE TruncCdf(u, s[1], s[2], XMIN, ONE)

(* a sampler that looks a uniform number up in a table of n intervals on [a, b]:      *)
(* linear interpolation between the tabulated values of the distribution               *)
Knot(a, b, n, i) == a + ((b - a) * i) \div n
Between(F(_), a, b, n, q) ==
   LET T == [ j \in 1..(n + 1) |-> F(Knot(a, b, n, j - 1)) ] \o <<>> IN
   IF q <= T[1] THEN a ELSE IF q >= T[n + 1] THEN b
   ELSE LET i == CHOOSE j \in 0..(n - 1) : T[j + 1] < q /\ q <= T[j + 2]
            x == Knot(a, b, n, i)
            y == Knot(a, b, n, i + 1)
        IN  x + Mul(y - x, Div(q - T[i + 1], T[i + 2] - T[i + 1]))
===============================================================================
