-------------------------------- MODULE Utils --------------------------------
(* The package's numeric utilities, declaratively.  Reals are fixed point.      *)
EXTENDS Fix, FiniteSets

(* ------------------------- widths of the time steps ------------------------- *)
Half(a) == a \div 2
Mid(a, b) == Half(a + b)
\* edges of the interval around point i: between midpoints of neighbours
RECURSIVE Lo(_, _), Hi(_, _)
Lo(t, i) == IF i = 1 THEN t[1] - Half(t[2] - t[1]) ELSE Mid(t[i - 1], t[i])
Hi(t, i) == IF i < Len(t) THEN Mid(t[i], t[i + 1]) ELSE t[i] + Half(Hi(t, i - 1) - Lo(t, i - 1))
Widths(t) == [ i \in 1..Len(t) |-> Hi(t, i) - Lo(t, i) ]

(* ------------------ triangular matrix of a parameter list ------------------- *)
NPar(d) == (d * (d + 1)) \div 2
\* which parameter (1-based; 0: none) sits at row i, column j
TriIndex(d, i, j) == IF i = j THEN i ELSE IF j < i THEN d + ((i - 1) * (i - 2)) \div 2 + j ELSE 0
Tri(d, p) == [ i \in 1..d |-> [ j \in 1..d |-> LET k == TriIndex(d, i, j) IN IF k = 0 THEN 0 ELSE p[k] ] ]

(* ------------------------ correlation and covariance ------------------------ *)
CovOf(rho, s) == [ i \in 1..Len(s) |-> [ j \in 1..Len(s) |-> Mul(Mul(rho[i][j], s[i]), s[j]) ] ]

(* ------------------------------ trimmed moments ------------------------------ *)
RECURSIVE InsertSorted(_, _)
InsertSorted(s, x) == IF s = <<>> \/ x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o InsertSorted(Tail(s), x)
RECURSIVE SortedSeq(_)
SortedSeq(s) == IF s = <<>> THEN <<>> ELSE InsertSorted(SortedSeq(Tail(s)), s[1])
\* linearly interpolated percentile, p in fixed point of a unit fraction
PercOf(s, p) == LET q == (Len(s) - 1) * p
                    k == q \div ONE
                    f == q % ONE
                IN  IF k + 1 >= Len(s) THEN s[Len(s)] ELSE s[k + 1] + Mul(f, s[k + 2] - s[k + 1])
Kept(x, p) == LET s == SortedSeq(x)
                  lo == PercOf(s, p)
                  hi == PercOf(s, ONE - p)
              IN  { i \in 1..Len(x) : x[i] > lo /\ x[i] < hi }
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOver(f, S \ {i})
MeanOver(x, K) == SumOver(x, K) \div Cardinality(K)
VarOver(x, K) == LET m == MeanOver(x, K) IN SumOver([ i \in K |-> Sq(x[i] - m) ], K) \div (Cardinality(K) - 1)

(* --------------------------------- broadcasting ------------------------------ *)
\* lengths of the arguments, 1 for scalars
MaxLen(n) == LET S == { n[i] : i \in 1..Len(n) } IN CHOOSE m \in S : \A k \in S : k <= m
Compatible(n) == \A i \in 1..Len(n) : n[i] \in {1, MaxLen(n)}
Spread(a, m) == [ j \in 1..m |-> IF Len(a) = 1 THEN a[1] ELSE a[j] ]
==============================================================================
