------------------------------- MODULE PopCov -------------------------------
(***************************************************************************)
(* Covariance of the four scattered halo parameters.  Index 1..4 is logm0, *)
(* logtc, early, late.  Scatter i rolls in halo mass from ylo to yhi about *)
(* x0 with steepness 2; correlation of a named pair is the same at every   *)
(* mass.                                                                    *)
(***************************************************************************)
EXTENDS Fix, FiniteSets
COVK == 2 * ONE
RHOMAX == 300000
Scatter(lgm, x0, ylo, yhi) == Sigmoid(lgm, x0, COVK, ylo, yhi)
\* rho is listed pair by pair: <<2,1>>, <<3,1>>, <<3,2>>, <<4,1>>, <<4,2>>, <<4,3>>
PairIdx(i, j) == LET a == Max2(i, j) b == Min2(i, j)
                 IN  ((a - 1) * (a - 2)) \div 2 + b
Corr(rho, i, j) == IF i = j THEN ONE ELSE rho[PairIdx(i, j)]
Det2(a, b, c, d) == Mul(a, d) - Mul(b, c)
Det3(m) == Mul(m[1][1], Det2(m[2][2], m[2][3], m[3][2], m[3][3]))
         - Mul(m[1][2], Det2(m[2][1], m[2][3], m[3][1], m[3][3]))
         + Mul(m[1][3], Det2(m[2][1], m[2][2], m[3][1], m[3][2]))
Minor(m, k) == [i \in 1..3 |-> [j \in 1..3 |-> m[i + 1][IF j < k THEN j ELSE j + 1]]]
Det4(m) == Mul(m[1][1], Det3(Minor(m, 1))) - Mul(m[1][2], Det3(Minor(m, 2)))
         + Mul(m[1][3], Det3(Minor(m, 3))) - Mul(m[1][4], Det3(Minor(m, 4)))
\* Sylvester: all leading principal minors positive
PosDef(m) == /\ m[1][1] > 0 /\ Det2(m[1][1], m[1][2], m[2][1], m[2][2]) > 0
             /\ Det3(m) > 0 /\ Det4(m) > 0
=============================================================================
